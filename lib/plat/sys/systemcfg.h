struct vp_aix { int dcache_size, L2_cache_size; };
extern struct vp_aix _system_configuration;
