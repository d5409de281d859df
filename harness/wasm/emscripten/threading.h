#ifndef VERIF_EMSCRIPTEN_THREADING_H
#define VERIF_EMSCRIPTEN_THREADING_H
int emscripten_num_logical_cores(void);
#endif
