// First on the link line: the library's writable data starts here.
extern "C" { __attribute__((aligned(64), used)) char sim_guest_data_begin[64] = {1}; __attribute__((aligned(64), used)) char sim_guest_bss_begin[64]; }
