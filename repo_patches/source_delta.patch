From 019d7a5d36d8465796fcd2d9102c9404be5533c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 01/54] fix: UTF-16 decoder accepts a low surrogate unit below
 DC00

The range check was done in signed int arithmetic, so any second unit with a high byte below DC passed.
---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From 40040d970e63a2895182452fafe43137afaa2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 02/54] fix: UTF-8 print of a character above 7FFFFFFF emits a
 malformed sequence

Print it as numeric entity as the other encodings do for characters they cannot represent.
---
 include/textwolf/charset_utf8.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..34cf59f 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -165,6 +165,14 @@ struct UTF8
 			buf.push_back( (char)(unsigned char)chr);
 			return;
 		}
+		if (chr > (UChar)MaxChar)
+		{
+			char tb[ 32];
+			char* cc = tb;
+			Encoder::encode( chr, tb, sizeof(tb));
+			while (*cc) buf.push_back( *cc++);
+			return;
+		}
 		unsigned int pp,sf;
 		for (pp=1,sf=5; pp<5; pp++,sf+=5)
 		{
-- 
2.43.0


From 69c4d31efbb062b8bff1c5ba5431804444e898b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 03/54] fix: Encoder::encode prints character 0 as '&#x;'
 without digit

---
 include/textwolf/charset_interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/charset_interface.hpp b/include/textwolf/charset_interface.hpp
index 0eec13c..02205ef 100644
--- a/include/textwolf/charset_interface.hpp
+++ b/include/textwolf/charset_interface.hpp
@@ -32,11 +32,12 @@ struct Encoder
 		StaticBuffer buf( bufptr, bufsize);
 		char bb[ 32];
 		unsigned int ii=0;
-		while (chr > 0)
+		do
 		{
 			bb[ii++] = HEX[ chr & 0xf];
 			chr /= 16;
 		}
+		while (chr > 0);
 		buf.push_back( '&');
 		buf.push_back( '#');
 		buf.push_back( 'x');
-- 
2.43.0


From adcb7e40041f6fa4f5916ca52c30d2c04e5077ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 04/54] fix: skip of an incompletely fetched character runs
 past the end of the chunk

---
 include/textwolf/charset_isolatin.hpp |  8 ++------
 include/textwolf/charset_ucs.hpp      | 14 ++++----------
 include/textwolf/charset_utf16.hpp    |  1 +
 include/textwolf/charset_utf8.hpp     |  6 +-----
 4 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..24a91ae 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -35,13 +35,9 @@ struct IsoLatin :public IsoLatinCodePage
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos==0)
-		{
-			++itr;
-			++bufpos;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_ucs.hpp b/include/textwolf/charset_ucs.hpp
index 8418ccb..a023521 100644
--- a/include/textwolf/charset_ucs.hpp
+++ b/include/textwolf/charset_ucs.hpp
@@ -41,12 +41,9 @@ struct UCS2
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 2; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
@@ -166,12 +163,9 @@ struct UCS4
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 4; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..b197c66 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -95,6 +95,7 @@ public:
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
+			buf[ bufpos] = *itr;
 			++itr;
 		}
 	}
diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index 34cf59f..d10b488 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -91,11 +91,7 @@ struct UTF8
 	template <class Iterator>
 	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		unsigned int bufsize = size( buf, bufpos, itr);
-		for (;bufpos < bufsize; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
-- 
2.43.0


From 4b8b8c1e85c0c97ec07366fdd3e06ff52069a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/54] fix: ISO-8859-3 code page tables shifted at unassigned
 bytes

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..e2c6c3e 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From f6d13c5b28161345d2539ecbac50f27ecee3ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/54] fix: ISO-8859 code pages never find characters above
 255

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index e2c6c3e..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From c82b1829a024e0034218732d29d3a5885b31d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/54] fix: IsoLatin print of character 0 emits a reference
 instead of the byte

---
 include/textwolf/charset_isolatin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 24a91ae..181f6d8 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -73,7 +73,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0


From 0fdf125be8b8b6514ba813b45dd6811119bb74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 08/54] fix: UTF-16 fetchbytes fetches only the lead unit of a
 surrogate pair

---
 include/textwolf/charset_utf16.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index b197c66..c92ded2 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -50,9 +50,12 @@ public:
 	};
 
 public:
-	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
+	/// \brief Fetch the first unit of the current character
+	/// \param [in] buf buffer for the character data
+	/// \param [in,out] bufpos position in 'buf'
+	/// \param [in,out] itr iterator
 	template <class Iterator>
-	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
+	static inline void fetchunit( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		if (bufpos<2)
 		{
@@ -75,7 +78,7 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
+		fetchunit( buf, bufpos, itr);
 
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
@@ -88,9 +91,9 @@ public:
 		}
 	}
 
-	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
+	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
+	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
@@ -100,6 +103,13 @@ public:
 		}
 	}
 
+	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
+	template <class Iterator>
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
+	{
+		fetchbytes( buf, bufpos, itr);
+	}
+
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
 	template <class Iterator>
 	static inline signed char asciichar( char* buf, unsigned int& bufpos, Iterator& itr)
-- 
2.43.0


From d5f9cc147b12f3ec48308c012c5f079ed85820ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 09/54] fix: entity map compares names by address instead of by
 content

---
 include/textwolf/xmlscanner.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..ae9a8f4 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -358,6 +359,13 @@ public:
 		}
 	};
 
+	/// \class EntityNameLess
+	/// \brief Order of the names in an entity map (by content, not by address)
+	struct EntityNameLess
+	{
+		bool operator()( const char* aa, const char* bb) const	{return std::strcmp( aa, bb) < 0;}
+	};
+
 	/// \typedef IsTokenCharMap
 	/// \brief Forms a set of characters by assigning (true/false) to the whole domain
 	typedef CharMap<bool,false,NofControlCharacter> IsTokenCharMap;
@@ -484,7 +492,7 @@ public:
 public:
 	typedef TextScanner<InputIterator,InputCharSet_> InputReader;
 	typedef XMLScanner<InputIterator,InputCharSet_,OutputCharSet_,OutputBuffer_> ThisXMLScanner;
-	typedef std::map<const char*,UChar> EntityMap;
+	typedef std::map<const char*,UChar,EntityNameLess> EntityMap;
 	typedef OutputBuffer_ OutputBuffer;
 
 private:
-- 
2.43.0


From 344099fc9b7cbeab0fedadd5af760c7f789b2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 10/54] fix: malformed hexadecimal character reference passed
 through without its 'x'

---
 include/textwolf/xmlscanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index ae9a8f4..48f8982 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -589,6 +589,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
-- 
2.43.0


From 3d26fd683779030a77a41172bc09ac696ceab300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 11/54] fix: too big numeric character reference passed through
 with its ';' doubled

---
 include/textwolf/xmlscanner.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 48f8982..c5eff77 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -651,7 +651,6 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From fcde558c5c49107f7f37d40b2e0b068bdb718a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 12/54] fix: numeric character reference without digits prints
 the null character

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index c5eff77..de53679 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -649,7 +649,7 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
 					fallbackEntity();
 					return true;
-- 
2.43.0


From a95f9a92d6e41f6198c2c5419ed0ae075c7ce9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 13/54] fix: unterminated comment, CDATA, PI or DOCTYPE subset
 reads past the end of text

---
 include/textwolf/xmlscanner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index de53679..479d6b5 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -78,7 +78,7 @@ private:
 		size++;
 	}
 
-	/// \brief Define a transition for all control character types not firing yet in the last state defined
+	/// \brief Define a transition for all control character types (except end of text) not firing yet in the last state defined
 	/// \param [in] nextState the follow state index defined for these transitions
 	void addOtherTransition( int nextState)
 	{
@@ -86,7 +86,7 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
-			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
+			if (inputchr != EndOfText && tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
 	}
-- 
2.43.0


From f9425b4f9260f50ae11e191fbd0a6093e80c5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 14/54] fix: processing instruction containing '?' not followed
 by '>' rejected

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 479d6b5..4fea67f 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -312,7 +312,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From 4c4b9ea73c7d2bc40b0d492ff396c456a8687f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 15/54] fix: CDATA section ending with ']]]>' not terminated

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 4fea67f..79dbc41 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -354,7 +354,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From c5a1140051610df494391b09384613d374198e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 16/54] fix: comment ending with '--->' not terminated

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 79dbc41..2d27a03 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -350,7 +350,7 @@ public:
 			[ COMDASH2 ](Dash,COMSEEKE).miss(ErrExpectedDash2)
 			[ COMSEEKE ](Dash,COMENDD2).other(COMSEEKE)
 			[ COMENDD2 ](Dash,COMENDCL).other(COMSEEKE)
-			[ COMENDCL ](Gt,SEEKTOK)(Dash,COMENDD2).other(COMSEEKE)
+			[ COMENDCL ](Gt,SEEKTOK)(Dash).other(COMSEEKE)
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-- 
2.43.0


From d68de8ebd7d305357297f3915475f6db41210f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 17/54] fix: white space in an immediate tag close repeats the
 close tag element

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 2d27a03..71cb3c7 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -339,7 +339,7 @@ public:
 			[ TAGAVSQ  ].action(ReturnSQString,TagAttribValue)(Sq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVDQ  ].action(ReturnDQString,TagAttribValue)(Dq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVQE  ](EndOfLine,Cntrl,Space,TAGAISK)(Slash,TAGCLIM)(Gt,CONTENT).miss(ErrExpectedTagAttribute)
-			[ TAGCLIM  ].action(Return,CloseTagIm)(EndOfLine)(Cntrl)(Space)(Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ TAGCLIM  ].action(Return,CloseTagIm)(EndOfLine,Cntrl,Space,TAGCLSK)(Gt,CONTENT).miss(ErrExpectedTagEnd)
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-- 
2.43.0


From 483eb97c6e248aa8c946a160bfdbadf77f8d8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 18/54] fix: copy of a suspended scanner loses its position in
 the token

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 71cb3c7..76974e7 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1025,11 +1025,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From 6a25602fc9939c2da0fcac0467eef5196d0a3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 19/54] fix: assigned tag stack shares and frees the buffer of
 the original

---
 include/textwolf/xmltagstack.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..ea837d2 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -44,6 +44,22 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size);
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = xx;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From 69e8571195c9aa0f38baeb3960eacc806d49a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 20/54] fix: StaticBuffer append writes out of bounds if the
 size computation overflows

---
 include/textwolf/staticbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..d0aa1ef 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -85,7 +85,7 @@ public:
 	/// \param[in] ccsize the number of characters to append
 	void append( const char* cc, std::size_t ccsize)
 	{
-		if (m_pos+ccsize > m_size)
+		if (ccsize > m_size - m_pos)
 		{
 			m_overflow = true;
 			ccsize = m_size - m_pos;
-- 
2.43.0


From 1e94c2c139f84e3ab578002854f734cfca109ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 21/54] fix: StaticBuffer grants access to the element one past
 the end

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index d0aa1ef..9d98c97 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -123,7 +123,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -132,7 +132,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From fd838763e139d694b31406cdf94eaf5c5e71fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 22/54] fix: copy of a StaticBuffer on external memory never
 freed

---
 include/textwolf/staticbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 9d98c97..9f55709 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
-- 
2.43.0


From b02debb6b52a15eca37f94093c11567f95228bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 23/54] fix: assigned StaticBuffer shares and frees the memory
 of the original

---
 include/textwolf/staticbuffer.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 9f55709..962d131 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free( m_ar);
+			m_ar = xx;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From a0ea855b69fa61ad365ab8fb1f734a30b575cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 24/54] fix: default constructed IStreamIterator frees an
 uninitialised pointer

---
 include/textwolf/istreamiterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..5a6b24f 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
-- 
2.43.0


From ec7a59ace1ebca7b9179b17bf174798c258f3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 25/54] fix: names of exception causes from FileReadError on
 shifted by a missing comma

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From bd06f02550a50911997ac992d5513746e1458908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 26/54] fix: assigned IStreamIterator shares and frees the
 buffer of the original

---
 include/textwolf/istreamiterator.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 5a6b24f..fe32431 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -123,6 +123,26 @@ public:
 		std::memcpy( m_buf, o.m_buf, o.m_readsize);
 	}
 
+	/// \brief Assignment operator
+	/// \param [in] o iterator to assign
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_bufsize);
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_buf, o.m_readsize);
+			std::free( m_buf);
+			m_input = o.m_input;
+			m_buf = xx;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
+	}
+
 	/// \brief Element access
 	/// \return current character
 	inline char operator* ()
-- 
2.43.0


From 3239e4cdc70c749f70157422ba7756bd5e52c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 27/54] fix: position of IStreamIterator does not advance at
 the end of data

---
 include/textwolf/istreamiterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index fe32431..dd96131 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -155,6 +155,7 @@ public:
 	{
 		if (m_readpos+1 >= m_readsize)
 		{
+			if (m_readpos >= m_readsize) ++m_abspos;
 			fillbuf();
 		}
 		else
-- 
2.43.0


From a3b467b56732b27f926291a15cbb39450e34d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 28/54] fix: IStreamIterator difference wrong across buffer
 boundaries

---
 include/textwolf/istreamiterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index dd96131..7a14ba3 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -167,7 +167,7 @@ public:
 
 	int operator - (const IStreamIterator& o) const
 	{
-		return (int)m_readpos - o.m_readpos;
+		return (int)(position() - o.position());
 	}
 
 	PositionIndex position() const
-- 
2.43.0


From e18a326d73802407c928b3a90c409cc7ae767505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 29/54] fix: increment of a default constructed IStreamIterator
 dereferences NULL

---
 include/textwolf/istreamiterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7a14ba3..0acec89 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -179,8 +179,10 @@ private:
 	bool fillbuf()
 	{
 		m_abspos += m_readsize;
-		m_readsize = m_input->read( m_buf, m_bufsize);
+		m_readsize = 0;
 		m_readpos = 0;
+		if (!m_input) return false;
+		m_readsize = m_input->read( m_buf, m_bufsize);
 		if (m_input->errorcode()) throw exception( FileReadError);
 		return true;
 	}
-- 
2.43.0


From 7e8252d65dfa4b0f366afdc17ecc5caa381d1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 30/54] fix: stream read failure without errno set treated as
 end of data

---
 include/textwolf/istreamiterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 0acec89..281bdab 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -68,13 +68,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From 414c0552944b0c5f4df5cea0f395373fa915b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 31/54] fix: printer closes a tag with an attribute without
 value

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..26280eb 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -241,6 +241,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "printed tag or content after an attribute without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From 3ccfda6c747fa57c36422ff295d16a3ae3479ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 32/54] fix: printer prints DOCTYPE inside of tags and elements

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 26280eb..e59b502 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -196,6 +196,11 @@ public:
 	{
 		if (rootid)
 		{
+			if (m_state != Content || !m_tagstack.empty())
+			{
+				m_lasterror = "printing DOCTYPE not after the xml header and before the root element";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From f0776c921ada94b1d4a2d37e43f065f4d14d1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 33/54] fix: carriage return in printed content not escaped and
 lost on re-scanning

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index e59b502..2c6a0b3 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From c3e385e44aede48f3243e734941814964cca490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 34/54] fix: printer refuses attribute and close tag without an
 error message

---
 include/textwolf/xmlprinter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 2c6a0b3..e0e00f9 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -288,6 +288,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = "printing attribute outside of a tag or after an attribute without value";
 		return false;
 	}
 
@@ -321,6 +322,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printing close tag without open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -331,6 +333,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "printing close tag after an attribute without value";
 			return false;
 		}
 		else
-- 
2.43.0


From 76e7ec28f06a49d3c3123e6e605fc21be038180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 35/54] fix: copy of an XmlHdrParser loses the encoding and the
 error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From 9b1ac627b818e38e17b33ac7f6e3fee870f42cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 36/54] fix: scanner iterator reports the token text instead of
 the error message

---
 include/textwolf/xmlscanner.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 76974e7..53e7995 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1267,11 +1267,26 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
+				fetch( mask);
+			}
+			return *this;
+		}
+
+		/// \brief Fetch the next element from the scanner
+		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
+		void fetch( unsigned short mask=0xFFFF)
+		{
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = element.m_content?std::strlen( element.m_content):0;
+			}
+			else
+			{
 				element.m_content = input->getItemPtr();
 				element.m_size = input->getItemSize();
 			}
-			return *this;
 		}
 
 		/// \brief Compare iterator with another
@@ -1307,9 +1322,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch();
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From 28ab323d9ad40f6963c5f1c9cfb1fec75dd12530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:34 +0000
Subject: [PATCH 37/54] fix: tag stack writes out of bounds after a failed
 reallocation

---
 include/textwolf/xmltagstack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index ea837d2..f7cb15e 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -69,12 +69,14 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize) newsize *= 2;
+			if (m_pos + ofs > newsize) throw std::bad_alloc();
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
 			m_ptr = xx;
+			m_size = newsize;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
 		m_pos += ofs;
-- 
2.43.0


From a23d02bdadec81a82140c58ef82aaf6683b8b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 38/54] fix: copy of a default constructed IStreamIterator
 passes NULL to memcpy

---
 include/textwolf/istreamiterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 281bdab..e0234fa 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -120,7 +120,7 @@ public:
 		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (o.m_readsize) std::memcpy( m_buf, o.m_buf, o.m_readsize);
 	}
 
 	/// \brief Assignment operator
@@ -131,7 +131,7 @@ public:
 		{
 			char* xx = (char*)std::malloc( o.m_bufsize);
 			if (!xx) throw std::bad_alloc();
-			std::memcpy( xx, o.m_buf, o.m_readsize);
+			if (o.m_readsize) std::memcpy( xx, o.m_buf, o.m_readsize);
 			std::free( m_buf);
 			m_input = o.m_input;
 			m_buf = xx;
-- 
2.43.0


From 10055e26e597b2c4fefd24df27ce31afcbd6740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 39/54] fix: seek operation ThisAttributeValue named
 AttributeValue

---
 include/textwolf/xmlpathautomaton.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..5f3e737 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -158,11 +158,6 @@ public:
 			&&  this->hasReject( XMLScannerBase::Content))
 				return "Attribute";
 
-			if (this->hasMatch( XMLScannerBase::TagAttribValue)
-			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
-			&&  this->hasReject( XMLScannerBase::Content))
-				return "AttributeValue";
-
 			if (this->hasMatch( XMLScannerBase::TagAttribValue)
 			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
 			&&  this->hasReject( XMLScannerBase::TagAttribName)
@@ -171,6 +166,11 @@ public:
 			&&  this->hasReject( XMLScannerBase::OpenTag))
 				return "ThisAttributeValue";
 
+			if (this->hasMatch( XMLScannerBase::TagAttribValue)
+			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
+			&&  this->hasReject( XMLScannerBase::Content))
+				return "AttributeValue";
+
 			if (this->hasMatch( XMLScannerBase::Content))
 				return "Content";
 
-- 
2.43.0


From 4faf00fb083222e87004985ff68369bfc8772a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 40/54] fix: selection iterators close the scope of a close tag
 once per iterator copy

---
 include/textwolf/xmlpathselect.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..e0c2769 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -116,6 +116,7 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		closeProcessElement(); //... if the results of the previous element have not been fetched completely
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -146,6 +147,7 @@ private:
 				follows.resize( context.scope.range.followidx);
 				tokens.resize( context.scope.range.tokenidx_to);
 			}
+			context.type = XMLScannerBase::None; //... a scope is closed only once
 		}
 	}
 
@@ -276,6 +278,7 @@ private:
 					{
 						context.key = 0;
 						context.keysize = 0;
+						closeProcessElement();
 						return 0; //end of all candidates
 					}
 				}
@@ -285,6 +288,7 @@ private:
 		{
 			context.key = 0;
 			context.keysize = 0;
+			closeProcessElement();
 		}
 		return type;
 	}
@@ -401,11 +405,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From cc2676a135155df4d45379028ecf318dce1698d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 41/54] fix: index range of an output is counted down twice for
 every match

---
 include/textwolf/xmlpathselect.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index e0c2769..080b20b 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -195,7 +195,11 @@ private:
 			if (tk->core.mask.matches( context.type))
 			{
 				const State& st = atm->states[ tk->stateidx];
-				if (st.key)
+				if (tk->core.typeidx != 0)
+				{
+					//... output state, its range is counted below
+				}
+				else if (st.key)
 				{
 					if (st.keysize == context.keysize)
 					{
-- 
2.43.0


From 007ee74fcdf404b13d0bec7ad743d49943e32ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 42/54] fix: search in all descendants is given up at the first
 content

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 080b20b..9e15322 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -240,7 +240,7 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (!tk->core.follow && tk->core.mask.rejects( context.type))
 			{
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
-- 
2.43.0


From 052973c5f7548167b1d6c313644f3bb206df0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:15 +0000
Subject: [PATCH 43/54] fix: copy of an XMLPathSelect loses its context

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 9e15322..a9c8a81 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -341,7 +341,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From 5759b5a2318641eb1e1572bf2a4284d5d83b848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:20 +0000
Subject: [PATCH 44/54] fix: numeric character references in names and values
 of path expressions are never decoded

---
 include/textwolf/xmlscanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 53e7995..57019ca 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -541,6 +541,7 @@ private:
 	static UChar parseStaticNumericEntityValue( InputReader& ir)
 	{
 		EChar value = 0;
+		ir.skip(); //... the '&'
 		unsigned char ch = ir.ascii();
 		unsigned int base;
 		if (ch != '#') return 0;
@@ -831,6 +832,7 @@ public:
 				else if (ch == Amp)
 				{
 					pc = parseStaticNumericEntityValue( ir);
+					if (pc == 0) return false;
 				}
 				else
 				{
-- 
2.43.0


From 78c2c3e4c5c0d65496821f8705a258f8460b2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:25 +0000
Subject: [PATCH 45/54] fix: names and values of path expressions are cut at
 the first character not allowed in a name

---
 include/textwolf/xmlpathautomaton.hpp |  3 ++-
 include/textwolf/xmlscanner.hpp       | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 5f3e737..4e1d639 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -582,6 +582,7 @@ public:
 		PathElement& doSelect( Operation op, const char* value)
 		{
 			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static XMLScannerBase::IsValueCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +591,7 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					if (!StaticXMLScanner::parseStaticToken( (op==ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 57019ca..91418ff 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -401,6 +401,16 @@ public:
 		}
 	};
 
+	/// \class IsValueCharMap
+	/// \brief Forms a set of characters of attribute values in path expressions (all but the start of a character reference) by assignment
+	struct IsValueCharMap :public IsTokenCharMap
+	{
+		IsValueCharMap()
+		{
+			for (unsigned int ch=0; ch<NofControlCharacter; ch++) (*this)( (ControlCharacter)ch, ch != EndOfText && ch != Amp);
+		}
+	};
+
 	/// \class IsSQStringCharMap
 	/// \brief Defines the set characters belonging to a single quoted string
 	struct IsSQStringCharMap :public IsContentCharMap
@@ -836,7 +846,7 @@ public:
 				}
 				else
 				{
-					return true;
+					return (ch == EndOfText);
 				}
 				output.print( pc, buf);
 				ir.skip();
-- 
2.43.0


From f674fb5b05740fbbbdb0312a1d495104fd4b110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 46/54] fix: index range without upper bound or composed of two
 bounds ignores its start

---
 include/textwolf/xmlpathautomaton.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 4e1d639..a3dd7ba 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -620,17 +620,24 @@ public:
 		///\return *this
 		PathElement& doRange( int p_start, int p_end)
 		{
-			if (range.end == -1)
+			if (p_end == -1)
 			{
-				range = Range( p_start, p_end);
+				p_end = std::numeric_limits<int>::max(); //... no upper bound, but the elements are counted
 			}
-			else if (p_end < range.end)
+			if (range.end == -1)
 			{
-				range.end = p_end;
+				range = Range( p_start, p_end);
 			}
-			else if (p_start > range.start)
+			else
 			{
-				range.start = p_start;
+				if (p_end < range.end)
+				{
+					range.end = p_end;
+				}
+				if (p_start > range.start)
+				{
+					range.start = p_start;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 9280e660da665cbd2f66f48770ea676eb135d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 47/54] fix: names in path expressions are cut after 1023 bytes

---
 include/textwolf/xmlpathautomaton.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index a3dd7ba..4729f6d 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -587,15 +587,14 @@ public:
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
 					if (!StaticXMLScanner::parseStaticToken( (op==ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
-- 
2.43.0


From b4dc82b643d6568cd40d05cc3948673733d772ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 48/54] fix: step without name in a path is taken for an equal
 one with an empty name

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 4729f6d..ab0a5eb 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -454,7 +454,7 @@ private:
 
 			for (int ee=stateidx; ee != -1; stateidx=ee,ee=states[ee].link)
 			{
-				if ((states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
+				if ((key != 0) && (states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
 				{
 					unsigned int ii;
 					for (ii=0; ii<keysize && states[ee].key[ii]==key[ii]; ii++);
-- 
2.43.0


From c0db402a8f2eb5e78140b08c98a4bffca97da258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 49/54] fix: path expression with a character whose lowest byte
 is zero or an operator character refused

---
 include/textwolf/xmlpathautomatonparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..7dd24ad 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,8 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			UChar ch = *src;
+			return (ch >= 128 || 0==std::strchr( opchr, (char)ch));
 		}
 		return false;
 	}
-- 
2.43.0


From 5742bfbb6aa5e1015d6c8b6d04863b1aa5c3bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 50/54] fix: names parsed for an automaton in UTF-16 or UCS-2/4
 are not terminated

---
 include/textwolf/xmlpathautomatonparse.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 7dd24ad..3e58719 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -302,6 +302,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
+			terminate( idlist.back());
 			return idlist.back().c_str();
 		}
 		const char* parseValue( SrcScanner& src)
@@ -315,6 +316,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
+				terminate( idlist.back());
 				return idlist.back().c_str();
 			}
 			else if (isIdentifierChar(src))
@@ -342,6 +344,13 @@ private:
 			return rt;
 		}
 
+	private:
+		///\brief Terminate a string with a null character of any character set encoding
+		static void terminate( std::string& str)
+		{
+			str.append( 4, '\0');
+		}
+
 	private:
 		const AtmCharSet* atmcharset;
 		std::list<std::string> idlist;
-- 
2.43.0


From fb73e52bae3fd5dd5a9f6a3398dcfa0695210c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 51/54] fix: path expression with a name containing a dash
 refused

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3e58719..637ab0f 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -279,7 +279,7 @@ private:
 
 	static bool isIdentifierChar( SrcScanner& src)
 	{
-		if (src.control() == Undef || src.control() == Any)
+		if (src.control() == Undef || src.control() == Any || src.control() == Dash)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
 			UChar ch = *src;
-- 
2.43.0


From cef25f57e554009a020d4d96fbd48386876cfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 52/54] fix: incomplete path expression ending after a slash or
 an at sign accepted

---
 include/textwolf/xmlpathautomatonparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 637ab0f..e3415a2 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -208,6 +208,7 @@ public:
 					break;
 			}
 		}
+		if (state == SelectTag || state == SelectAttribute) return src.getPosition()+1;
 		expr.assignType( typeidx);
 		return 0;
 	}
-- 
2.43.0


From 711f6918f9573873d618644c8d826e7e29bafb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 53/54] fix: XMLPathSelectAutomaton::tostring() does not
 compile for states with an index range (stream printed to itself)

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index ab0a5eb..236205d 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -337,7 +337,7 @@ public:
 			}
 			if (core.cnt_end > 0)
 			{
-				rt << '[' << core.cnt_start << ',' << rt << core.cnt_end << ']';
+				rt << '[' << core.cnt_start << ',' << core.cnt_end << ']';
 			}
 			if (core.typeidx)
 			{
-- 
2.43.0


From 69dfb3323b5df6e68d0003fd376e378691296977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:58 +0000
Subject: [PATCH 54/54] fix: path expression with two colons in a quoted value,
 or bytes of an UTF-16 character looking like colons, refused

---
 include/textwolf/xmlpathautomatonparse.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index e3415a2..30c302a 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,26 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		CStringIterator nsitr( esrc, esrcsize);
+		SrcScanner nssrc( m_srccharset, nsitr);
+		UChar quote = 0;
+		while (*nssrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
+			UChar ch = *nssrc;
+			std::size_t xpos = nssrc.getPosition();
+			++nssrc;
+			if (quote)
+			{
+				if (ch == quote) quote = 0;
+			}
+			else if (ch == '"' || ch == '\'')
+			{
+				quote = ch;
+			}
+			else if (ch == ':' && *nssrc == ':')
 			{
 				return xpos+1;
 			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
 		}
 
 		// Parse the expression:
-- 
2.43.0

