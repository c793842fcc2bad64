// Fields with moduli of our own: libff's field templates are for any modulus
// with a spare top bit. CRV 6 and up; the numbers cover one to seven limbs, the
// smallest fields, moduli next to a power of two, and every tower.
#if CRV == 6
#define CNAME "F13"
#define TOWER 22
#define LIMBS_Q 1
#define LIMBS_R 1
#define EXPR_Q Z(13)
#define EXPR_R Z(7)
#elif CRV == 7
#define CNAME "F7"
#define TOWER 232
#define LIMBS_Q 1
#define LIMBS_R 1
#define EXPR_Q Z(7)
#define EXPR_R (Z(1) << 61) - 1
#elif CRV == 8
#define CNAME "F(2^127-1)"
#define TOWER 232
#define LIMBS_Q 2
#define LIMBS_R 2
#define EXPR_Q (Z(1) << 127) - 1
#define EXPR_R (Z(1) << 64) + 13
#elif CRV == 9
#define CNAME "F(2^191-19)"
#define TOWER 32
#define LIMBS_Q 3
#define LIMBS_R 3
#define EXPR_Q (Z(1) << 191) - 19
#define EXPR_R (Z(1) << 128) + 51
#elif CRV == 10
#define CNAME "F(2^255-19)"
#define TOWER 22
#define LIMBS_Q 4
#define LIMBS_R 4
#define EXPR_Q (Z(1) << 255) - 19
#define EXPR_R (Z(1) << 192) + 133
#elif CRV == 11
#define CNAME "F(2^319-865)"
#define TOWER 32
#define LIMBS_Q 5
#define LIMBS_R 5
#define EXPR_Q (Z(1) << 319) - 865
#define EXPR_R (Z(1) << 256) + 297
#elif CRV == 12
#define CNAME "F(2^447-325)"
#define TOWER 232
#define LIMBS_Q 7
#define LIMBS_R 8
#define EXPR_Q (Z(1) << 447) - 325
#define EXPR_R (Z(1) << 448) + 211
#endif
namespace lf { namespace {
libff::bigint<LIMBS_Q> mod_q; libff::bigint<LIMBS_R> mod_r;
const Z MOD_Q(EXPR_Q), MOD_R(EXPR_R);
typedef libff::Fp_model<LIMBS_Q, mod_q> Fq_; typedef libff::Fp_model<LIMBS_R, mod_r> Fr_;
#if TOWER == 232
#define HAS_FM 1
typedef libff::Fp2_model<LIMBS_Q, mod_q> Fe_; typedef libff::Fp6_3over2_model<LIMBS_Q, mod_q> Fm_; typedef libff::Fp12_2over3over2_model<LIMBS_Q, mod_q> Fk_;
#elif TOWER == 22
typedef libff::Fp2_model<LIMBS_Q, mod_q> Fe_; typedef libff::Fp4_model<LIMBS_Q, mod_q> Fk_;
#else
typedef libff::Fp3_model<LIMBS_Q, mod_q> Fe_; typedef libff::Fp6_2over3_model<LIMBS_Q, mod_q> Fk_;
#endif
}}
