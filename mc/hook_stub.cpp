extern "C" void sph_mc_point(const volatile void *, unsigned long, int) {}
