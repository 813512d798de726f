INFO = {
 "C23": ("tensors of the listed shapes; element type float, double, int, bool; server and client side; row, column, block size any 32-bit integers (block shapes of array arguments up to one more than the tensor, row- and column-major); every cell of the local copy, the shared copy, the GPU mirror and of array arguments arbitrary before each call (one-step induction over histories) and 2-call sequences; scalar arguments Python float/int/bool and numpy float32/float64; every combination of safe and force_reconnection arguments on a name that is in use; the lock busy 0-2 times at any attempt",
         "retried requests that are out of range (they never return); writers in other processes between two calls other than through the arbitrary shared contents; element arithmetic (none occurs)"),
 "C24": ("1-3 names in two orders, 1-3 rows per name (chosen per name), 1-3 nodes; server and client; 1-3 writes from either side to any name or an unknown one, with data of the exact, a larger or a flat shape, all cells symbolic; lock busy 0-2 times; restart with and without force_reconnection after a server that did not close", "duplicate names (the code states it assumes none); the encoding of names in shared memory (C14)"),
 "C25": ("tensors of the listed shapes, all element types, ROS 1 and ROS 2 back ends, subscriber created before/after the publisher or its first update, 2-3 rounds of fresh symbolic data; string tensors as their raw buffer; any metadata value in -1..9 arriving later on each metadata topic; topic names for symbolic namespaces and basenames of 1-2 characters; StringArray for up to 3 strings of up to 2 (3) symbolic characters", "ROS itself (not installed: the middleware is a model: typed topics, latching, copies through the wire type); callbacks running in another thread during update(); names containing '/'"),
}
