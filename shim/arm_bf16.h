// see arm_neon.h
