// Last of the library objects on the link line: its writable data ends here.
extern "C" { __attribute__((aligned(64), used)) char sim_guest_data_end[64] = {1}; __attribute__((aligned(64), used)) char sim_guest_bss_end[64]; }
