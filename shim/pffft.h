// Stand-in for the PFFFT library (not installed in this sandbox). Same API and
// documented semantics as the subset the code under test uses; the transform is
// computed in double precision and rounded to float.
#ifndef VERIF_SHIM_PFFFT_H
#define VERIF_SHIM_PFFFT_H
#include <cstddef>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct PFFFT_Setup PFFFT_Setup;
typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;
PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t transform);
void pffft_destroy_setup(PFFFT_Setup*);
void pffft_transform(PFFFT_Setup* setup, const float* input, float* output,
                     float* work, pffft_direction_t direction);
void pffft_transform_ordered(PFFFT_Setup* setup, const float* input,
                             float* output, float* work,
                             pffft_direction_t direction);
void pffft_zreorder(PFFFT_Setup* setup, const float* input, float* output,
                    pffft_direction_t direction);
void pffft_zconvolve_accumulate(PFFFT_Setup* setup, const float* dft_a,
                                const float* dft_b, float* dft_ab,
                                float scaling);
void* pffft_aligned_malloc(size_t nb_bytes);
void pffft_aligned_free(void*);
int pffft_simd_size();
#ifdef __cplusplus
}
#endif
#endif
