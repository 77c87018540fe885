// S05: XCAS output read back gives the same CAS.
// BOUND: a structure with any integer, short, long, byte and boolean values, any string of 0..2 (thorough: 0..3) characters out of everything XML can represent, as feature value and as document text; floats and doubles out of 13 boundary values; arrays and lists of every kind with 0..2 elements (only referenced, referenced from a feature, from two features); three structures of 2 (thorough: 5) types with every reference graph and root set; every choice and order of three views with any kind of Sofa and membership; annotations in two views; four languages; a CAS used and reset before; structures indexed in 9 and 100 views
// OUTSIDE: XML-illegal characters; null elements of string arrays (XCAS has no form for them); a structure added several times to one bag index; non-ASCII type and feature names; the digits made by the C++ library for floats other than those listed; documents of the format's first version; types or features missing in the reading CAS; the markup details left to Xerces (the harness's XML processor stands in for it, and Xerces itself runs in the replay)
#define RT_XCAS 1
#include "S04.cpp"
