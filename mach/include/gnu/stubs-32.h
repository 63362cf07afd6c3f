/* the machines under test have no C library of their own: the host headers serve, without a list of stubs */
