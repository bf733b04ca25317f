long mc_bss_end[2]; long mc_data_end[2] = { 1, 1 };
