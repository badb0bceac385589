/* a module whose load runs a hook of the harness (see c20.cpp) */
extern void vfModuleLoaded(void);
__attribute__((constructor)) static void loaded(void) { vfModuleLoaded(); }
