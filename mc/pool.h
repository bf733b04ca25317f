#pragma once
#include <cstdint>
#include <cstddef>
void sut_init(int workers);
void sut_start();
void sut_items(int n, bool (*cb)(void *, int32_t, int64_t), void * arg, int wake);
bool sut_chunks(int64_t n, bool (*cb)(void *, int32_t, int64_t, int64_t), void * arg, int wake);
void sut_groups(int64_t n, bool (*cb)(void *, int64_t), void * arg);
void sut_any(int mode, int64_t n, void * cb, char * in1, char * in2, char * out, int64_t si, int64_t so);
int sut_wake(int n);
void sut_threading(bool on);
int sut_cores();
bool sut_section(void (*fn)());
int64_t sut_segment(int64_t bins, int64_t maxc, int64_t * lo, int64_t * hi, int64_t * num);
void * sut_ring(size_t * n);
