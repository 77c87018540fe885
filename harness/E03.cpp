// E03: descriptions are written to XML faithfully: what E02 reads, written by AnalysisEngineDescription::toXMLBuffer and read again, is the same description.
// BOUND: the descriptions of E02's scenarios that are accepted, every listed text in every kind of text element, nested inline delegates (up to 2, each with up to one)
// OUTSIDE: descriptions with imports still to be resolved (imported contents are written inline next to the import), attributes that mean nothing without groups, descriptions mixing grouped and ungrouped parameters, absent operational properties (written with their defaults)
#define DESC_WRITE 1
#define DESC_REACHED symx_reached("round trip")
#include "E02.cpp"
