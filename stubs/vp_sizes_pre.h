typedef void *vp_p;
