"""C28: lists, tables of names and arenas behave as sequences, finite maps and memory of their own."""
from contain import *


def body(c, p):
    c.rule("The container functions, executed abstractly on a memory model that knows the size of every allocation. Tables: every pattern of collisions of four names in a table that has to grow, longer stories with all names in one slot and "
           "wrapping around its end, against a finite map; keys are fresh copies. Lists: stories of pushes, pops, insertions at every position, clearing, over lists made for 0 to 5 items and growing twice, against a sequence. Arenas: zeroed, distinct, extended with contents, "
           "each block released exactly once. No element beyond the allocated ones may be touched, nothing used or released after its release.")
    c.require(100)
    tables(c, p)
    lists(c, p)
    arenas(c, p)
