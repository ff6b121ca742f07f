// dispatch(): which structure a configuration looks at. G selects the translation unit.
#ifndef G
#define G 0
#endif
static void dispatch(uint64_t w){
#define BUN(B,...) do{ typedef bun<B,__VA_ARGS__> T_; run<T_>(mkbun<T_>,dbun<T_>); }while(0)
  switch(w){
#if G==0
  typedef bit_vector V;
  case 0: BUN(V,rank_support_v<>,rank_support_v5<>,select_support_mcl<>,select_support_mcl<0>); break;
  case 1: BUN(V,rank_support_scan<>,rank_support_v5<0>,select_support_scan<>,select_support_scan<0>); break;
  case 2: { PL=2; typedef rank_support_v<10,2> a; typedef rank_support_v5<1,2> b; typedef select_support_mcl<10,2> c; typedef select_support_mcl<1,2> d; typedef bun<V,a,b,c,d> T_; run<T_>(mkbun<T_>,dbun<T_>); break; }
  case 3: { typedef bun<bit_vector_il<64>,rank_support_il<1,64>,rank_support_il<0,64>,select_support_il<1,64>,select_support_il<0,64>> T_; run<T_>(mkbun<T_>,dbun<T_>); break; }
  case 4: { typedef sd_vector<> S; BUN(S,rank_support_sd<>,rank_support_sd<0>,select_support_sd<>,select_support_sd<0>); break; }
  case 5: { typedef hyb_vector<> S; BUN(S,rank_support_hyb<>,rank_support_hyb<0>,NoS<S>,NoS<S>); break; }
#elif G==1
  case 0: { typedef rrr_vector<15> S; typedef bun<S,rank_support_rrr<1,15>,rank_support_rrr<0,15>,select_support_rrr<1,15>,select_support_rrr<0,15>> T_; run<T_>(mkbun<T_>,dbun<T_>); break; }
  case 1: { typedef rrr_vector<63> S; typedef bun<S,rank_support_rrr<1,63>,rank_support_rrr<0,63>,select_support_rrr<1,63>,select_support_rrr<0,63>> T_; run<T_>(mkbun<T_>,dbun<T_>); break; }
  case 2: { typedef rrr_vector<127> S; typedef bun<S,rank_support_rrr<1,127>,rank_support_rrr<0,127>,select_support_rrr<1,127>,select_support_rrr<0,127>> T_; run<T_>(mkbun<T_>,dbun<T_>); break; }
#elif G==2
  case 0: run<int_vector<>>(mkiv<0>,dvec<int_vector<>>); break;
  case 1: run<int_vector<8>>(mkiv<8>,dvec<int_vector<8>>); break;
  case 2: run<int_vector<64>>(mkiv<64>,dvec<int_vector<64>>); break;
  case 3: { typedef enc_vector<coder::elias_delta,4> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 4: { typedef vlc_vector<coder::elias_gamma,4> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 5: { typedef dac_vector<4> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 6: { typedef dac_vector_dp<> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 7: { typedef vlc_vector<coder::fibonacci> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 8: { typedef vlc_vector<coder::comma<>> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
  case 9: { typedef enc_vector<coder::fibonacci,4> T_; run<T_>(mkvec<T_>,dvec<T_>); break; }
#elif G==3
  case 0: run<wt_huff<>>(mkwt<wt_huff<>>,dwt<wt_huff<>>); break;
  case 1: run<wt_blcd<>>(mkwt<wt_blcd<>>,dwt<wt_blcd<>>); break;
  case 2: run<wt_hutu<>>(mkwt<wt_hutu<>>,dwt<wt_hutu<>>); break;
  case 3: { typedef wt_huff<rrr_vector<15>> T_; run<T_>(mkwt<T_>,dwt<T_>); break; }
  case 4: { typedef wt_rlmn<> T_; run<T_>(mkwt<T_>,dwt<T_>); break; }
#elif G==4
  case 0: run<wt_int<>>(mkwt<wt_int<>>,dwt<wt_int<>>); break;
  case 1: run<wm_int<>>(mkwt<wm_int<>>,dwt<wm_int<>>); break;
  case 2: run<wt_gmr<>>(mkwt<wt_gmr<>>,dwt<wt_gmr<>>); break;
  case 3: run<wt_ap<>>(mkwt<wt_ap<>>,dwt<wt_ap<>>); break;
  case 4: run<wt_gmr_rs<>>(mkwt<wt_gmr_rs<>>,dwt<wt_gmr_rs<>>); break;
  case 5: run<wt_huff_int<>>(mkwt<wt_huff_int<>>,dwt<wt_huff_int<>>); break;
  case 6: { typedef wt_rlmn<bit_vector,rank_support_v5<>,select_support_mcl<>,wt_int<>> T_; run<T_>(mkwt<T_>,dwt<T_>); break; }
  case 7: { typedef wt_int<rrr_vector<15>> T_; run<T_>(mkwt<T_>,dwt<T_>); break; }
#elif G==5
  case 0: { typedef csa_wt<wt_huff<>,4,4> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 1: { typedef csa_sada<enc_vector<coder::elias_delta,4>,4,4> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 2: { typedef csa_bitcompressed<> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 3: { typedef csa_wt<wt_blcd<rrr_vector<15>>,4,4,text_order_sa_sampling<>,text_order_isa_sampling_support<>,succinct_byte_alphabet<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 4: { typedef csa_wt<wt_huff<>,4,4,fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 5: { typedef csa_wt<wt_huff<>,3,3,sa_bwt_sampling<>,isa_sampling<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 6: run<byte_alphabet>(mkal<byte_alphabet>,dal<byte_alphabet>); break;
  case 7: run<succinct_byte_alphabet<>>(mkal<succinct_byte_alphabet<>>,dal<succinct_byte_alphabet<>>); break;
#elif G==6
  case 0: { typedef csa_wt<wt_int<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 1: { typedef csa_sada<enc_vector<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 2: { typedef csa_bitcompressed<int_alphabet<>> T_; run<T_>(mkcsa<T_>,dcsa<T_>); break; }
  case 3: run<int_alphabet<>>(mkal<int_alphabet<>>,dal<int_alphabet<>>); break;
#elif G==7
  case 0: { typedef cst_sct3<csa_wt<wt_huff<>,4,4>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
  case 1: { typedef cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_support_sada<>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
  case 2: { typedef cst_sct3<csa_bitcompressed<>,lcp_support_tree<>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
#elif G==8
  case 0: { typedef cst_sada<csa_sada<enc_vector<>,4,4>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
  case 1: { typedef cst_sada<csa_sada<enc_vector<>,4,4>,lcp_support_tree2<3>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
  case 2: { typedef cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_wt<>,bp_support_gg<>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
#elif G==9
  case 0: { typedef cst_fully<csa_wt<wt_huff<>,4,4>> T_; run<T_>(mkcsa<T_>,dcst<T_>); break; }
#elif G==10
  case 0: run<lcp_byte<>>(mklcp<lcp_byte<>>,dvec<lcp_byte<>>); break;
  case 1: run<lcp_wt<>>(mklcp<lcp_wt<>>,dvec<lcp_wt<>>); break;
  case 2: run<lcp_dac<>>(mklcp<lcp_dac<>>,dvec<lcp_dac<>>); break;
  case 3: run<lcp_bitcompressed<>>(mklcp<lcp_bitcompressed<>>,dvec<lcp_bitcompressed<>>); break;
  case 4: run<lcp_vlc<>>(mklcp<lcp_vlc<>>,dvec<lcp_vlc<>>); break;
  case 5: { typedef rmb<rmq_succinct_sct<>,false> T_; run<T_>(mkrm<rmq_succinct_sct<>,false>,drm<rmq_succinct_sct<>,false>); break; }
  case 6: { typedef rmb<rmq_succinct_sada<>,false> T_; run<T_>(mkrm<rmq_succinct_sada<>,false>,drm<rmq_succinct_sada<>,false>); break; }
  case 7: { typedef rmb<rmq_support_sparse_table<>,true> T_; run<T_>(mkrm<rmq_support_sparse_table<>,true>,drm<rmq_support_sparse_table<>,true>); break; }
#elif G==11
  case 0: run<bpb<bp_support_sada<>>>(mkbp<bp_support_sada<>>,dbp<bp_support_sada<>>); break;
  case 1: run<bpb<bp_support_gg<>>>(mkbp<bp_support_gg<>>,dbp<bp_support_gg<>>); break;
  case 2: run<bpb<bp_support_g<>>>(mkbp<bp_support_g<>>,dbp<bp_support_g<>>); break;
  case 3: run<ipb>(mkip,dip); break;
  case 4: run<nn_dict_dynamic>(mknnd,dnnd); break;
  case 5: run<nnd_t>(mknn,dnn); break;
  case 6: run<lo<louds_tree<>>>(mklo<louds_tree<>>,dlo<louds_tree<>>); break;
#elif G==12
  case 0: run<k2_treap<2>>(mkk2<k2_treap<2>>,dk2<k2_treap<2>>); break;
  case 1: run<k2_tree<2>>(mkkt<k2_tree<2>>,dkt<k2_tree<2>>); break;
  case 2: run<stk<sorted_int_stack>>(mkst<sorted_int_stack>,dst<sorted_int_stack>); break;
  case 3: run<stk<sorted_stack_support>>(mkst<sorted_stack_support>,dst<sorted_stack_support>); break;
  case 4: run<stk<sorted_multi_stack_support>>(mkst<sorted_multi_stack_support>,dst<sorted_multi_stack_support>); break;
#endif
  } }
