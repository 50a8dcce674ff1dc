// ISO-8859 parts 1,2,3,4,9,10,13,14,15: upper halves (from the Python codecs = the Unicode consortium tables); 0xFFFD = unassigned
#ifndef SPEC_ISO8859_H
#define SPEC_ISO8859_H
namespace spec {
static const unsigned short iso8859[9][128] = {
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x2D8,0x141,0xA4,0x13D,0x15A,0xA7,0xA8,0x160,0x15E,0x164,0x179,0xAD,0x17D,0x17B,0xB0,0x105,0x2DB,0x142,0xB4,0x13E,0x15B,0x2C7,0xB8,0x161,0x15F,0x165,0x17A,0x2DD,0x17E,0x17C,0x154,0xC1,0xC2,0x102,0xC4,0x139,0x106,0xC7,0x10C,0xC9,0x118,0xCB,0x11A,0xCD,0xCE,0x10E,0x110,0x143,0x147,0xD3,0xD4,0x150,0xD6,0xD7,0x158,0x16E,0xDA,0x170,0xDC,0xDD,0x162,0xDF,0x155,0xE1,0xE2,0x103,0xE4,0x13A,0x107,0xE7,0x10D,0xE9,0x119,0xEB,0x11B,0xED,0xEE,0x10F,0x111,0x144,0x148,0xF3,0xF4,0x151,0xF6,0xF7,0x159,0x16F,0xFA,0x171,0xFC,0xFD,0x163,0x2D9},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x126,0x2D8,0xA3,0xA4,0xFFFD,0x124,0xA7,0xA8,0x130,0x15E,0x11E,0x134,0xAD,0xFFFD,0x17B,0xB0,0x127,0xB2,0xB3,0xB4,0xB5,0x125,0xB7,0xB8,0x131,0x15F,0x11F,0x135,0xBD,0xFFFD,0x17C,0xC0,0xC1,0xC2,0xFFFD,0xC4,0x10A,0x108,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xFFFD,0xD1,0xD2,0xD3,0xD4,0x120,0xD6,0xD7,0x11C,0xD9,0xDA,0xDB,0xDC,0x16C,0x15C,0xDF,0xE0,0xE1,0xE2,0xFFFD,0xE4,0x10B,0x109,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xFFFD,0xF1,0xF2,0xF3,0xF4,0x121,0xF6,0xF7,0x11D,0xF9,0xFA,0xFB,0xFC,0x16D,0x15D,0x2D9},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x138,0x156,0xA4,0x128,0x13B,0xA7,0xA8,0x160,0x112,0x122,0x166,0xAD,0x17D,0xAF,0xB0,0x105,0x2DB,0x157,0xB4,0x129,0x13C,0x2C7,0xB8,0x161,0x113,0x123,0x167,0x14A,0x17E,0x14B,0x100,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0x12E,0x10C,0xC9,0x118,0xCB,0x116,0xCD,0xCE,0x12A,0x110,0x145,0x14C,0x136,0xD4,0xD5,0xD6,0xD7,0xD8,0x172,0xDA,0xDB,0xDC,0x168,0x16A,0xDF,0x101,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0x12F,0x10D,0xE9,0x119,0xEB,0x117,0xED,0xEE,0x12B,0x111,0x146,0x14D,0x137,0xF4,0xF5,0xF6,0xF7,0xF8,0x173,0xFA,0xFB,0xFC,0x169,0x16B,0x2D9},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x11E,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0x130,0x15E,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x11F,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0x131,0x15F,0xFF},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x112,0x122,0x12A,0x128,0x136,0xA7,0x13B,0x110,0x160,0x166,0x17D,0xAD,0x16A,0x14A,0xB0,0x105,0x113,0x123,0x12B,0x129,0x137,0xB7,0x13C,0x111,0x161,0x167,0x17E,0x2015,0x16B,0x14B,0x100,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0x12E,0x10C,0xC9,0x118,0xCB,0x116,0xCD,0xCE,0xCF,0xD0,0x145,0x14C,0xD3,0xD4,0xD5,0xD6,0x168,0xD8,0x172,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0x101,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0x12F,0x10D,0xE9,0x119,0xEB,0x117,0xED,0xEE,0xEF,0xF0,0x146,0x14D,0xF3,0xF4,0xF5,0xF6,0x169,0xF8,0x173,0xFA,0xFB,0xFC,0xFD,0xFE,0x138},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x201D,0xA2,0xA3,0xA4,0x201E,0xA6,0xA7,0xD8,0xA9,0x156,0xAB,0xAC,0xAD,0xAE,0xC6,0xB0,0xB1,0xB2,0xB3,0x201C,0xB5,0xB6,0xB7,0xF8,0xB9,0x157,0xBB,0xBC,0xBD,0xBE,0xE6,0x104,0x12E,0x100,0x106,0xC4,0xC5,0x118,0x112,0x10C,0xC9,0x179,0x116,0x122,0x136,0x12A,0x13B,0x160,0x143,0x145,0xD3,0x14C,0xD5,0xD6,0xD7,0x172,0x141,0x15A,0x16A,0xDC,0x17B,0x17D,0xDF,0x105,0x12F,0x101,0x107,0xE4,0xE5,0x119,0x113,0x10D,0xE9,0x17A,0x117,0x123,0x137,0x12B,0x13C,0x161,0x144,0x146,0xF3,0x14D,0xF5,0xF6,0xF7,0x173,0x142,0x15B,0x16B,0xFC,0x17C,0x17E,0x2019},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x1E02,0x1E03,0xA3,0x10A,0x10B,0x1E0A,0xA7,0x1E80,0xA9,0x1E82,0x1E0B,0x1EF2,0xAD,0xAE,0x178,0x1E1E,0x1E1F,0x120,0x121,0x1E40,0x1E41,0xB6,0x1E56,0x1E81,0x1E57,0x1E83,0x1E60,0x1EF3,0x1E84,0x1E85,0x1E61,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x174,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0x1E6A,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0x176,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x175,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0x1E6B,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0x177,0xFF},
{0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0x20AC,0xA5,0x160,0xA7,0x161,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0x17D,0xB5,0xB6,0xB7,0x17E,0xB9,0xBA,0xBB,0x152,0x153,0x178,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF},
};
static inline unsigned int iso_decode( unsigned int page, unsigned char b) {return b < 128 ? b : iso8859[page-1][b-128];}
// byte of the character in the page, -1 if none
static inline int iso_encode( unsigned int page, unsigned int c)
{
	if (c < 128) return (int)c;
	int r = -1;
	if (c != 0xFFFD) for (unsigned int i=0; i<128; ++i) if (iso8859[page-1][i] == c) r = (int)(128+i);
	return r;
}
}
#endif
