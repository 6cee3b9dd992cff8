#pragma once
// Stand-in for the OpenMP runtime: the harness chooses the team size and the
// thread number (see DESIGN.md, "Threads").
extern "C" int omp_get_num_threads();
extern "C" int omp_get_thread_num();
