/* glibc asks for it when a long has 32 bits, as on Windows */
