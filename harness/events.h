#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
void vp_mark(const uintptr_t* b, const uintptr_t* e, int* changed);
