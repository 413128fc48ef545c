package main

// confused are pairs of names which common digests do not tell apart. A table that is keyed by a digest, or a memory of
// earlier results, takes one for the other.
var confused = [][2]string{
	{"nvmdvbwzrc", "ngoxqmkvas"}, {"nqrqgkmwkf", "nyvpjyudig"}, // fnv-1, 32 bits
	{"nasdauhbgd", "nzvrbukike"}, {"nhrkfkiwbb", "nvmyriikix"}, // fnv-1a, 32 bits
	{"noktyyfvoo", "nixlpeynuu"}, {"nlmynrfpac", "nziprubvat"}, // crc-32
	{"nzppeegkbl", "ngcjtcawox"}, {"ncavblhzgl", "njnbrhwzvh"}, // crc-32c
	{"nctnkwcqcv", "nmdyavjezj"}, {"nrogpqyxid", "njotwnxbsh"}, // adler-32
	{"nscehbobvr", "nfcltogwqu"}, {"nnlhypkvvm", "nrumygscto"}, // times 31, 32 bits
	{"nmskfksqph", "nucrhuxwhz"}, {"nedbzbvkpx", "nusyuxrdvv"}, // times 33, 32 bits
	{"nqjuxzdedb", "nfkykfpmxw"}, {"nxhbquvvyt", "naqgxykefe"}, // times 33 with exclusive or
	{"nabfrfqubb", "najrcqxgxo"}, {"nwfdvqazav", "nzomfvcedx"}, // sdbm
	{"AaAa", "BBBB"}, {"AaBB", "BBAa"}, // times 31 in any width
	{"listen", "silent"}, {"nab", "nba"}, {"n-1-2", "n-2-1"}, // sums
	{"nacb", "nbbb"},               // sums of other letters
	{"nxyyx", "naa"},               // exclusive or, but for the first
	{"name", "mane"},               // same first, last and length after sorting
	{"a-long-name", "a-wide-name"}, // beginning, end and length
}
