// first and last object of the link: bounds of the explored program's static data
long mc_bss_begin[2]; long mc_data_begin[2] = { 1, 1 };
