// Families of sessions.  Each is a generator of API call sequences; what the
// calls must do comes from the specification's tables (see drv.c).
// `scale` multiplies the effort.  F(c) = flag of usable codec c.

static int FL(int c) { return CODECS[usable[c]].flag; }

// Sizes at which 8-, 16- and 24-bit counters of blocks would wrap.
static size_t wide(long scale, int k) {
	static const size_t W[] = { 1 << 14, 1 << 17, 5 << 20, 0 };
	return (k < 3 ? W[k] : scale > 10 ? (size_t)160 << 20 : scale >= 4 ? (size_t)60 << 20 : (size_t)9 << 20) + below(200);
}

// Lengths at and after a power of two, or three of them: where the number of
// rounds of a loop, whatever its block, is such a number too.
static size_t round_len(size_t i, long scale) {
	static size_t v[2048], n;
	if (!n) for (int k = 8; k <= (scale >= 4 ? 16 : scale >= 2 ? 15 : 14); k++) for (size_t a = 1; a <= 3; a += 2) for (size_t d = 0; d < 79; d++) v[n++] = (a << k) + d - 3;
	return i < n ? v[i] : 0;
}

static int round_even(size_t i) { return i % 79 >= 2 && i % 79 <= 4; }	// the power itself and its neighbours

// ------------------------------------------------------------ C01: one-shot encoding
static void enc_one(unsigned long long u, int flags, const uint8_t *p, size_t n) {
	session_begin(u); op_enc1(flags, p, n); session_end();
}
static void f_enc1(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		// every length, several contents
		size_t L = scale >= 4 ? 2100 : 700; if (scale > 10) L = 9000;
		rec_every = 40;
		for (size_t n = 0; n <= L; n++) {
			uint8_t *b = buf(n + 1);
			fill_src(b, n); enc_one(u++, fl, b, n);
			memset(b, n & 1 ? 0xFF : 0x00, n); enc_one(u++, fl, b, n);
			memset(b, (int)rnd(), n); enc_one(u++, fl, b, n);
		}
		// every byte value at every position of a buffer that spans bulk loop and tail
		size_t spans[] = { 3 * 48 + 1, 2 * 96 + 2, 48, 24, 7, 301 };
		int nspan = scale >= 4 ? 6 : 2;
		rec_every = 20000;
		for (int k = 0; k < nspan; k++) {
			size_t n = spans[k] + below(3); uint8_t *b = buf(n);
			for (size_t p = 0; p < n; p++) {
				fill_src(b, n);
				for (int v = 0; v < 256; v += (scale >= 4 ? 1 : 5)) { b[p] = (uint8_t)(v + p); enc_one(u++, fl, b, n); }
			}
		}
		// every combination of the alphabet's parts over the four places of a quantum
		rec_every = 2000;
		for (int k = 0; k < 625; k++) for (int r = 0; r < (scale >= 4 ? 3 : 1); r++) {
			size_t q = 17 + below(40), n; uint8_t *t = buf(4 * q), *b = buf(3 * q + 3);
			pattern4(t, 4 * q, k); n = spec_decode(t, 4 * q, b); enc_one(u++, fl, b, n - below(3));
		}
		// every 12-bit pair of sextets at every lane: all 4096 pairs in sequence, at 32 offsets
		for (int off = 0; off < 32; off++) {
			size_t n = off * 3 + 6144 + below(3); uint8_t *b = buf(n + 3);
			fill_src(b, n + 3);
			for (unsigned q = 0; q < 2048; q++) {
				unsigned v1 = 2 * q, v2 = 2 * q + 1;	// two 12-bit values = 3 bytes
				uint8_t *t = b + off * 3 + 3 * q;
				t[0] = v1 >> 4; t[1] = (uint8_t)((v1 & 15) << 4 | v2 >> 8); t[2] = v2 & 255;
			}
			enc_one(u++, fl, b, n);
			// the same pairs straddling the other way (odd sextet alignment)
			for (unsigned q = 0; q < 2048; q++) {
				unsigned v1 = (2 * q) & 0xFFF, hi = v1 >> 6, lo = v1 & 63;
				unsigned g = ((unsigned)below(64) << 18) | (hi << 12) | (lo << 6) | (unsigned)below(64);
				if (q & 1) g = ((unsigned)below(64) << 18) | ((hi ^ 1) << 12) | ((lo ^ 1) << 6) | (unsigned)below(64);
				uint8_t *t = b + off * 3 + 3 * q;
				t[0] = g >> 16; t[1] = (g >> 8) & 255; t[2] = g & 255;
			}
			enc_one(u++, fl, b, n);
		}
		// every 24-bit group
		if (scale >= 4) {
			size_t chunk = 1 << 16;	// groups per call
			uint8_t *b = buf(3 * chunk + 8);
			for (size_t g0 = 0; g0 < (1u << 24); g0 += chunk) {
				size_t off = below(3);	// shift the lanes from call to call
				for (size_t i = 0; i < chunk; i++) { size_t g = g0 + (i * 40503u + off * 7) % chunk; b[3 * i] = g >> 16; b[3 * i + 1] = (g >> 8) & 255; b[3 * i + 2] = g & 255; }
				enc_one(u++, fl, b, 3 * chunk);
			}
		}
		// large lengths
		for (int k = 0; k < 6 * scale; k++) {
			size_t n = logu((size_t)1 << (scale > 10 ? 25 : scale >= 4 ? 22 : 18)); uint8_t *b = buf(n + 1);
			fill_src(b, n); enc_one(u++, fl, b, n);
		}
		rec_every = 1 << 30;
		for (size_t i = 0, n; (n = round_len(i, scale)); i++) { uint8_t *b = buf(n + 1); fill_src(b, n); enc_one(u++, fl, b, n); }
		for (int k = 0; k < (scale >= 2 ? 4 : 3); k++) { size_t n = wide(scale, k); uint8_t *b = buf(n + 1); fill_src(b, n); enc_one(u++, fl, b, n); }
	}
}

// ------------------------------------------------------------ C02: chunked encoding
static size_t rnd_chunk(size_t left) {
	switch (below(8)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return below(4);
	case 3: return below(40);
	case 4: return below(200);
	case 5: return left;
	default: return logu(left);
	}
}
static void enc_session(unsigned long long u, int fl, const uint8_t *p, size_t n, const size_t *cut, int ncut) {
	// cut: increasing offsets
	session_begin(u);
	op_init('i', 0, fl);
	size_t at = 0;
	for (int i = 0; i < ncut; i++) { op_enc(0, p + at, cut[i] - at); at = cut[i]; }
	op_enc(0, p + at, n - at);
	op_fin(0);
	session_end();
}
static void f_encs(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		uint8_t *b = buf(1 << 16);
		size_t cut[64];
		rec_every = 150;
		// all two-way cuts of all lengths
		size_t L2 = scale >= 4 ? 210 : 70;
		for (size_t n = 0; n <= L2; n++) {
			fill_src(b, n);
			for (size_t x = 0; x <= n; x++) { cut[0] = x; enc_session(u++, fl, b, n, cut, 1); }
		}
		// all three-way cuts of some lengths
		size_t L3[] = { 5, 17, 33, 49, 64, 97, 130 };
		for (int k = 0; k < (scale >= 4 ? 7 : 3); k++) {
			size_t n = L3[k] + below(4); fill_src(b, n);
			for (size_t x = 0; x <= n; x++) for (size_t y = x; y <= n; y++) { cut[0] = x; cut[1] = y; enc_session(u++, fl, b, n, cut, 2); }
		}
		// every pending state (phase and pending bits) before a chunk of every length
		rec_every = 300;
		for (int ph = 1; ph <= 2; ph++) for (int cr = 0; cr < (ph == 1 ? 4 : 16); cr++) for (size_t n = 0; n <= (scale >= 4 ? 150u : 60u); n++) {
			fill_src(b, n + 2);
			if (ph == 1) b[0] = (uint8_t)((b[0] & ~3) | cr); else b[1] = (uint8_t)((b[1] & ~15) | cr);
			cut[0] = ph; enc_session(u++, fl, b, n + ph, cut, 1);
		}
		// random cuts
		rec_every = 60;
		for (long k = 0; k < 1500 * scale; k++) {
			size_t n = (k % 50 == 0) ? logu(1 << 16) : (k % 3 ? logu(2000) : below(400));
			fill_src(b, n);
			session_begin(u++); op_init('i', 0, fl);
			size_t at = 0; int guard = 0;
			while (at < n && guard++ < 500) { size_t m = rnd_chunk(n - at); if (m > n - at) m = n - at; op_enc(0, b + at, m); at += m; }
			if (below(2)) op_enc(0, b, 0);
			op_fin(0); session_end();
		}
		// byte-at-a-time, and fixed chunk sizes
		for (size_t cs = 1; cs <= (scale >= 4 ? 140u : 30u); cs++) {
			size_t n = 700; fill_src(b, n);
			session_begin(u++); op_init('i', 0, fl);
			for (size_t at = 0; at < n; at += cs) op_enc(0, b + at, at + cs > n ? n - at : cs);
			op_fin(0); session_end();
		}
		// a megabyte in the CLI's block size, then odd sizes
		for (int k = 0; k < (scale >= 4 ? 3 : 1); k++) {
			size_t n = (k ? 1 << 20 : 1 << 18) + below(5000); uint8_t *big = buf(n); fill_src(big, n);
			session_begin(u++); op_init('i', 0, fl);
			for (size_t at = 0; at < n;) { size_t m = logu(1 << 18); if (m > n - at) m = n - at; op_enc(0, big + at, m); at += m; }
			op_fin(0); session_end();
		}
		for (size_t i = 0, n; (n = round_len(i, scale)); i++) for (size_t k = 0; k < (round_even(i) ? 3 : 1); k++) {
			uint8_t *p = buf(n + 2); size_t ph = (k + below(round_even(i) ? 1 : 3)) % 3; fill_src(p, n + ph); cut[0] = ph; enc_session(u++, fl, p, n + ph, cut, 1);
		}
		// one or two bytes pending, then a very large chunk
		for (int k = 0; k < (scale >= 2 ? 4 : 3); k++) {
			size_t n = wide(scale, k); uint8_t *big = buf(n); fill_src(big, n);
			session_begin(u++); op_init('i', 0, fl); size_t at = 1 + below(2); op_enc(0, big, at); op_enc(0, big + at, n - at); op_fin(0); session_end();
		}
	}
}

// ------------------------------------------------------------ C03: decoding well-formed text
static void f_dec_valid(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		size_t Q = scale >= 4 ? 700 : 230; if (scale > 10) Q = 3000;
		rec_every = 40;
		for (size_t q = 0; q <= Q; q++) for (int np = 0; np < (q ? 3 : 1); np++) {
			uint8_t *t = buf(4 * q + 4);
			size_t n = rnd_text(t, q, np);
			session_begin(u++); if (op_dec1(fl, t, n) != 1) violation("well-formed text was refused"); session_end();
			// round trip of random bytes
			size_t m = 3 * q + (np ? 3 - np : 0); uint8_t *r = buf(m + 1), *tt = buf(4 * (m / 3) + 8);
			fill_src(r, m); n = spec_encode(r, m, tt);
			session_begin(u++); if (op_dec1(fl, tt, n) != 1) violation("well-formed text was refused"); session_end();
		}
		// every alphabet character at every position
		rec_every = 20000;
		size_t spans[] = { 60, 12, 34, 6, 3, 81 };	// quanta
		for (int k = 0; k < (scale >= 4 ? 6 : 2); k++) {
			size_t q = spans[k]; uint8_t *t = buf(4 * q);
			for (size_t p = 0; p < 4 * q; p++) {
				rnd_text(t, q, 0);
				for (int v = 0; v < 64; v++) { t[p] = spec_alpha[(v + p) & 63]; session_begin(u++); if (op_dec1(fl, t, 4 * q) != 1) violation("well-formed text was refused"); session_end(); }
			}
		}
		// every combination of the alphabet's parts over the four places of a quantum
		rec_every = 2000;
		for (int k = 0; k < 625; k++) for (int r = 0; r < (scale >= 4 ? 3 : 1); r++) {
			size_t q = 17 + below(40); uint8_t *t = buf(4 * q);
			pattern4(t, 4 * q, k); session_begin(u++); if (op_dec1(fl, t, 4 * q) != 1) violation("well-formed text was refused"); session_end();
		}
		// every pair of neighbouring characters at every lane
		for (int off = 0; off < 32; off++) {
			size_t n = 4 * (off + 2048 + 1); uint8_t *t = buf(n + 4);
			rnd_text(t, n / 4, 0);
			for (unsigned q = 0; q < 2048; q++) {
				uint8_t *p = t + 4 * (off + q); unsigned v1 = 2 * q, v2 = 2 * q + 1;
				p[0] = spec_alpha[v1 >> 6]; p[1] = spec_alpha[v1 & 63]; p[2] = spec_alpha[v2 >> 6]; p[3] = spec_alpha[v2 & 63];
			}
			session_begin(u++); if (op_dec1(fl, t, n) != 1) violation("well-formed text was refused"); session_end();
			for (unsigned q = 0; q < 2048; q++) {	// pairs across the other boundary
				uint8_t *p = t + 4 * (off + q) + 1; unsigned v1 = 2 * q, v2 = 2 * q + 1;
				p[0] = spec_alpha[v1 >> 6]; p[1] = spec_alpha[v1 & 63]; p[2] = spec_alpha[v2 >> 6]; p[3] = spec_alpha[v2 & 63];
			}
			session_begin(u++); if (op_dec1(fl, t, n) != 1) violation("well-formed text was refused"); session_end();
		}
		// every quantum
		if (scale >= 4) {
			size_t chunk = 1 << 16; uint8_t *t = buf(4 * chunk);
			for (size_t g0 = 0; g0 < (1u << 24); g0 += chunk) {
				size_t off = below(17);
				for (size_t i = 0; i < chunk; i++) { size_t g = g0 + (i * 40503u + off * 7) % chunk;
					t[4 * i] = spec_alpha[g >> 18]; t[4 * i + 1] = spec_alpha[(g >> 12) & 63]; t[4 * i + 2] = spec_alpha[(g >> 6) & 63]; t[4 * i + 3] = spec_alpha[g & 63]; }
				session_begin(u++); if (op_dec1(fl, t, 4 * chunk) != 1) violation("well-formed text was refused"); session_end();
			}
		}
		// every padded quantum, after 0.. many full quanta
		rec_every = 3000;
		for (size_t q = 0; q <= (scale >= 4 ? 40u : 18u); q += 1 + (q > 3)) {
			uint8_t *t = buf(4 * q + 8); rnd_text(t, q, 0);
			for (int v = 0; v < 4096; v += (scale >= 4 ? 1 : 3)) {
				t[4 * q] = spec_alpha[v >> 6]; t[4 * q + 1] = spec_alpha[v & 63]; t[4 * q + 2] = '='; t[4 * q + 3] = '=';
				session_begin(u++); if (op_dec1(fl, t, 4 * q + 4) != 1) violation("well-formed text was refused"); session_end();
				t[4 * q + 1] = spec_alpha[below(64)]; t[4 * q + 2] = spec_alpha[v & 63]; t[4 * q + 3] = '=';
				session_begin(u++); if (op_dec1(fl, t, 4 * q + 4) != 1) violation("well-formed text was refused"); session_end();
			}
		}
		for (int k = 0; k < 6 * scale; k++) {
			size_t q = logu((size_t)1 << (scale > 10 ? 23 : scale >= 4 ? 20 : 16)); uint8_t *t = buf(4 * q + 4);
			size_t n = rnd_text(t, q, q ? (int)below(3) : 0);
			session_begin(u++); if (op_dec1(fl, t, n) != 1) violation("well-formed text was refused"); session_end();
		}
		for (int k = 0; k < (scale >= 2 ? 4 : 3); k++) {
		rec_every = 1 << 30;
		for (size_t i = 0, n; (n = round_len(i, scale)); i++) { uint8_t *t = buf(n + 8); size_t m = rnd_text(t, (n + 3) / 4, (int)below(3)); session_begin(u++); if (op_dec1(fl, t, m) != 1) violation("well-formed text was refused"); session_end(); }
			size_t q = wide(scale, k) / 4; uint8_t *t = buf(4 * q + 4); size_t n = rnd_text(t, q, (int)below(3));
			session_begin(u++); if (op_dec1(fl, t, n) != 1) violation("well-formed text was refused"); session_end();
		}
	}
}

// ------------------------------------------------------------ C04: malformed text, one-shot
static void dec_one(unsigned long long u, int fl, const uint8_t *t, size_t n) { session_begin(u); op_dec1(fl, t, n); session_end(); }
static void f_dec_bad(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		// every length of plain data
		rec_every = 40;
		for (size_t n = 0; n <= (scale >= 4 ? 1500u : 500u); n++) { uint8_t *t = buf(n + 8); rnd_text(t, n / 4 + 1, 0); dec_one(u++, fl, t, n); t[n ? n - 1 : 0] = '='; dec_one(u++, fl, t, n); }
		// every byte value at every position
		rec_every = 20000;
		size_t spans[] = { 64 * 3 + 20, 32 + 12, 16 + 8, 12, 64 + 40, 32 * 8 + 52, 4, 8 };
		for (int k = 0; k < (scale >= 4 ? 8 : 2); k++) {
			size_t n = spans[k]; uint8_t *t = buf(n + 4);
			for (size_t p = 0; p < n; p++) {
				rnd_text(t, n / 4, k & 1 ? 0 : (int)below(3)); uint8_t old = t[p];
				for (int v = 0; v < 256; v += (scale >= 4 ? 1 : (v < 128 ? 1 : 7))) { t[p] = (uint8_t)v; dec_one(u++, fl, t, n); }
				t[p] = old;
			}
		}
		// every pair (any byte, any byte) inside one quantum of the bulk loop and of the tail
		for (int k = 0; k < 2 * scale; k++) {
			size_t n = 4 * (8 + below(40)); uint8_t *t = buf(n);
			rnd_text(t, n / 4, 0);
			size_t p = below(n - 1);
			if (scale >= 4) for (int v = 0; v < 256; v++) for (int w = 0; w < 256; w += 1 + (int)below(6)) { t[p] = (uint8_t)v; t[p + 1] = (uint8_t)w; dec_one(u++, fl, t, n); }
		}
		// all strings over a class alphabet after k valid quanta
		static const uint8_t cls[] = { 'A', '/', '=', '!' };
		rec_every = 2000;
		for (size_t q = 0; q <= (scale >= 4 ? 36u : 12u); q += (q < 2 ? 1 : q < 12 ? 5 : 6)) {
			uint8_t *t = buf(4 * q + 16);
			int maxl = scale > 10 ? 7 : q == 0 ? 6 : 5;
			for (int l = 1; l <= maxl; l++) for (unsigned v = 0; v < (1u << (2 * l)); v++) {
				rnd_text(t, q, 0);
				for (int i = 0; i < l; i++) t[4 * q + i] = cls[(v >> (2 * i)) & 3];
				dec_one(u++, fl, t, 4 * q + l);
			}
		}
		// anomalies at random places of longer texts
		rec_every = 100;
		for (long k = 0; k < 3000 * scale; k++) {
			size_t q = (k % 40 == 0) ? logu(1 << 14) : logu(300); uint8_t *t = buf(4 * q + 8);
			size_t n = rnd_text(t, q, q ? (int)below(3) : 0);
			int na = 1 + (int)below(2);
			for (int i = 0; i < na && n; i++) switch (below(5)) {
				case 0: t[below(n)] = '='; break;
				case 1: { size_t p = below(n / 4) * 4; t[p + 3] = '='; if (below(2)) t[p + 2] = '='; break; }
				case 2: n -= below(n < 5 ? n : 5); break;
				case 3: for (int x = 0; x < 3; x++) t[n + x] = below(3) ? '=' : 'A'; n += below(4); break;
				default: t[below(n)] = rnd_badchar(); break;
			}
			dec_one(u++, fl, t, n);
		}
		// several wrong characters, of certain kinds in certain places; and anything at all
		rec_every = 500;
		for (long k = 0; k < 2500 * scale; k++) {
			size_t n = 8 + below(k & 1 ? 120 : 400); uint8_t *t = buf(n + 4);
			if (k % 10 == 0) fill_rnd(t, n); else styled(t, n, 1 + (int)below(below(2) ? 2 : 9));
			if (k % 3 == 0) for (int i = 0; i < 4 && i < (long)n; i++) if (spec_value[t[i]] == 255) t[i] = 'A';
			dec_one(u++, fl, t, n);
		}
		for (int k = 0; k < 625; k++) {	// one wrong character among styled ones
			size_t n = 4 * (17 + below(40)); uint8_t *t = buf(n); pattern4(t, n, k);
			for (int i = 0; i < 4; i++) { size_t p = below(n); uint8_t old = t[p]; t[p] = class_char(5 + (int)below(NCLASS - 5)); dec_one(u++, fl, t, n); t[p] = old; }
		}
		// one wrong character late in a large text
		for (int k = 0; k < 3; k++) {
			size_t q = wide(scale, k) / 4; uint8_t *t = buf(4 * q + 4); size_t n = rnd_text(t, q, (int)below(3));
			size_t p = n - 1 - below(below(2) ? 100 : n - 5); t[p] = below(3) ? rnd_badchar() : '='; dec_one(u++, fl, t, n);
			dec_one(u++, fl, t, n - 1 - below(3));
		}
	}
}

// ------------------------------------------------------------ C05: chunked decoding
static size_t anomalous(uint8_t *t, size_t q) {	// text of ~q quanta, possibly malformed; t holds 4q+8
	size_t n = rnd_text(t, q, q ? (int)below(3) : 0);
	switch (below(6)) {
	case 0: if (n) t[below(n)] = rnd_badchar(); break;
	case 1: if (n) t[below(n)] = '='; break;
	case 2: n -= below(n < 4 ? n : 4); break;
	case 3: { size_t x = below(4); for (size_t i = 0; i < x; i++) t[n + i] = below(2) ? '=' : 'B'; n += x; break; }
	default: break;
	}
	return n;
}
static void dec_session(unsigned long long u, int fl, const uint8_t *t, size_t n, const size_t *cut, int ncut) {
	session_begin(u); op_init('I', 0, fl);
	size_t at = 0;
	for (int i = 0; i < ncut; i++) { op_dec(0, t + at, cut[i] - at); at = cut[i]; }
	op_dec(0, t + at, n - at);
	session_end();
}
static void f_decs(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		uint8_t *t = buf((1 << 16) + 64); size_t cut[64];
		rec_every = 150;
		for (size_t q = 0; q <= (scale >= 4 ? 48u : 16u); q++) for (int np = 0; np < 3; np++) {
			size_t n = rnd_text(t, q, q ? np : 0);
			for (size_t x = 0; x <= n; x++) { cut[0] = x; dec_session(u++, fl, t, n, cut, 1); }
			n = anomalous(t, q);
			for (size_t x = 0; x <= n; x++) { cut[0] = x; dec_session(u++, fl, t, n, cut, 1); }
		}
		for (int k = 0; k < (scale >= 4 ? 12 : 4); k++) {
			size_t q = 1 + (size_t)k * 2; size_t n = k & 1 ? anomalous(t, q) : rnd_text(t, q, k % 3);
			for (size_t x = 0; x <= n; x++) for (size_t y = x; y <= n; y++) { cut[0] = x; cut[1] = y; dec_session(u++, fl, t, n, cut, 2); }
		}
		// every compositions of short class strings: all texts over the class alphabet x all cut sets
		static const uint8_t cls[] = { 'Q', '=', '!', '/' };
		rec_every = 400;
		int ML = scale > 10 ? 7 : scale >= 4 ? 6 : 5;
		for (int l = 1; l <= ML; l++) for (unsigned v = 0; v < (1u << (2 * l)); v++) {
			for (int i = 0; i < l; i++) t[i] = cls[(v >> (2 * i)) & 3];
			for (unsigned m = 0; m < (1u << (l - 1)); m++) {
				int nc = 0; for (int i = 1; i < l; i++) if (m >> (i - 1) & 1) { cut[nc++] = i; if (below(6) == 0) cut[nc++] = i; }
				dec_session(u++, fl, t, l, cut, nc);
			}
		}
		// every decoder state before a chunk of every length (bulk loop entered out of phase)
		rec_every = 400;
		for (int ph = 0; ph <= 3; ph++) for (int cr = 0; cr < 64; cr += (scale >= 4 ? 1 : 5)) for (size_t n = 0; n <= (scale >= 4 ? 120u : 40u); n += 1 + below(2)) {
			rnd_text(t, n / 4 + 3, 0); if (ph) t[ph - 1] = spec_alpha[cr];
			if (below(3) == 0) t[ph + below(n + 1)] = below(2) ? '=' : rnd_badchar();
			cut[0] = ph; dec_session(u++, fl, t, n + ph, cut, 1);
		}
		// ... and of any length, also when padding has begun or the stream is closed
		for (long k = 0; k < 250 * scale; k++) {
			static const char *pre[] = { "", "Q", "QQ", "QQQ", "QQ=", "QQ==", "QQQ=", "!", "QQ!" };
			const char *p = pre[k % 9]; size_t ph = strlen(p), n = logu(k % 10 ? 3000 : 16000);
			rnd_text(t + ph, n / 4 + 1, 0); memcpy(t, p, ph); for (size_t i = 0; i < ph; i++) if (t[i] == 'Q') t[i] = spec_alpha[below(64)];
			if (below(2)) t[ph + below(n + 1)] = below(2) ? '=' : rnd_badchar(); if (below(3) == 0) t[ph] = '=';
			if (below(4) == 0 && n) t[ph + n - 1] = '=';
			cut[0] = ph; dec_session(u++, fl, t, n + ph, cut, 1);
		}
		rec_every = 60;
		for (long k = 0; k < 2000 * scale; k++) {
			size_t q = (k % 50 == 0) ? logu(1 << 14) : logu(200);
			size_t n = anomalous(t, q);
			session_begin(u++); op_init('I', 0, fl);
			size_t at = 0; int guard = 0;
			while (at < n && guard++ < 500) { size_t m = rnd_chunk(n - at); if (m > n - at) m = n - at; op_dec(0, t + at, m); at += m; }
			if (below(2)) op_dec(0, t, 0);
			session_end();
		}
		for (size_t cs = 1; cs <= (scale >= 4 ? 140u : 30u); cs++) for (int np = 0; np < 3; np++) {
			size_t n = rnd_text(t, 200, np);
			if (cs & 1) { int e = (int)below(5); n += e; t[n] = '='; }
			session_begin(u++); op_init('I', 0, fl);
			for (size_t at = 0; at < n; at += cs) op_dec(0, t + at, at + cs > n ? n - at : cs);
			session_end();
		}
		for (int k = 0; k < (scale >= 4 ? 3 : 1); k++) {
			size_t q = (k ? 1 << 18 : 1 << 15) + below(5000); uint8_t *big = buf(4 * q + 8); size_t n = rnd_text(big, q, k);
			session_begin(u++); op_init('I', 0, fl);
			for (size_t at = 0; at < n;) { size_t m = logu(1 << 18); if (m > n - at) m = n - at; op_dec(0, big + at, m); at += m; }
			session_end();
		}
		for (size_t i = 0, n; (n = round_len(i, scale)); i++) for (size_t k = 0; k < (round_even(i) ? 4 : 1); k++) {
			uint8_t *p = buf(n + 16); size_t ph = (k + below(round_even(i) ? 1 : 4)) % 4; rnd_text(p, (n + ph) / 4 + 1, 0);
			if (below(3) == 0) p[ph + n - 1 - below(n < 200 ? n : 200)] = below(2) ? '=' : rnd_badchar();
			cut[0] = ph; dec_session(u++, fl, p, n + ph, cut, 1);
		}
		for (int k = 0; k < (scale >= 2 ? 4 : 3); k++) {
			size_t q = wide(scale, k) / 4; uint8_t *big = buf(4 * q + 4); size_t n = rnd_text(big, q, (int)below(3));
			session_begin(u++); op_init('I', 0, fl); size_t at = 1 + below(3); op_dec(0, big, at); op_dec(0, big + at, n - at); session_end();
		}
	}
}

// ------------------------------------------------------------ C06: a closed stream stays closed
static void f_latch(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		uint8_t *t = buf(8192), *w = buf(8192);
		rec_every = 60;
		for (long k = 0; k < 6000 * scale; k++) {
			session_begin(u++); op_init('I', 0, fl);
			// reach "end" or "err" in one of the possible ways, in one or more chunks
			size_t q = below(4) ? below(4) : below(60); size_t n = rnd_text(t, q, 0);
			static const char *ends[] = { "QQ==", "QUI=", "QQ=!", "Q=", "=", "!", "Q!", "QQ!", "QQ=Q", "QUI!", "QUJD!", "QQ===", "QUI==", "QQ==A", "QUI=A", "QQ==QUJD", "QUI=QUJD", "QQ==QUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJD" };
			const char *e = ends[k % (sizeof ends / sizeof *ends)];
			memcpy(t + n, e, strlen(e)); if (below(2)) for (size_t i = n; i < n + strlen(e); i++) if (spec_value[t[i]] < 64) t[i] = spec_alpha[below(64)];
			n += strlen(e);
			if (k % 3 == 0) { if (n) for (size_t i = 0; i < n; i++) if (t[i] == '!') t[i] = rnd_badchar(); }
			size_t at = 0;
			while (at < n) { size_t m = below(3) ? rnd_chunk(n - at) : n - at; if (m > n - at) m = n - at; op_dec(0, t + at, m); at += m; }
			// whatever is offered now is refused
			int more = 1 + (int)below(5);
			for (int i = 0; i < more; i++) {
				size_t m = below(3) ? below(9) : logu(8000);
				switch (below(5)) {
				case 0: rnd_text(w, m / 4 + 1, 0); break;
				case 1: memset(w, '=', m + 1); break;
				case 2: memset(w, 'A', m + 1); break;
				case 3: rnd_text(w, m / 4 + 1, 0); w[below(m + 1)] = '='; break;
				default: fill_src(w, m + 1); break;
				}
				op_dec(0, w, m);
			}
			// until it is initialised again
			op_init('I', 0, below(2) ? fl : 0);
			n = rnd_text(t, 1 + below(30), (int)below(3));
			size_t x = below(n + 1); op_dec(0, t, x); op_dec(0, t + x, n - x);
			session_end();
		}
		// every way to close, with every value pending, before two chunks of any lengths
		rec_every = 2000;
		for (int e = 0; e < 12; e++) for (int v = 0; v < 64; v++) for (int l = 0; l < 14; l++) {
			static const char *shape[] = { "vQ==", "Qv==", "QQv=", "Qv=", "Qv=!", "Qv!", "QQv!", "v!", "QQQv!", "Qv=Q", "QQv==", "QQQv=" };
			static const int L[] = { 0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 45, 64, 100 };
			if (scale < 4 && (v + l + e) % 4) continue;
			session_begin(u++); op_init('I', 0, fl);
			size_t n = strlen(shape[e]); memcpy(t, shape[e], n); for (size_t i = 0; i < n; i++) if (t[i] == 'v') t[i] = spec_alpha[v];
			if ((v ^ l) & 1) { op_dec(0, t, n - 1); op_dec(0, t + n - 1, 1); } else op_dec(0, t, n);
			int m = L[l]; if (below(3) == 0) memset(w, below(2) ? 'A' : '=', 128); else rnd_text(w, 32, 0);
			op_dec(0, w, m); if (below(2)) op_dec(0, w, L[below(14)]);
			rnd_text(w, 12, 0); op_dec(0, w, 4 + 4 * below(12)); op_dec(0, w, 1);
			session_end();
		}
		// every character as the one that closes the stream, from every phase, followed by every character
		rec_every = 4000;
		for (int ph = 0; ph < 5; ph++) for (int v = 0; v < 256; v++) for (int w2 = 0; w2 < 256; w2 += (scale >= 4 ? 1 : 11)) {
			session_begin(u++); op_init('I', 0, fl);
			static const char *pre[] = { "", "Q", "QQ", "QUI", "QQ=" };
			op_dec(0, (const uint8_t *)pre[ph], strlen(pre[ph]));
			uint8_t ch = (uint8_t)v, c2 = (uint8_t)w2;
			op_dec(0, &ch, 1); op_dec(0, &c2, 1); op_dec(0, &ch, 0); op_dec(0, (const uint8_t *)"QUJD", 4);
			session_end();
		}
	}
}

// ------------------------------------------------------------ C07: codecs are interchangeable
static void f_switch(long scale) {
	unsigned long long u = 0;
	uint8_t *t = buf(1 << 15);
	rec_every = 50;
	for (long k = 0; k < 12000 * scale; k++) {
		int dec = (int)below(2);
		session_begin(u++);
		op_init(dec ? 'I' : 'i', 0, FL((int)below(nusable)));
		size_t n = dec ? anomalous(t, logu(400)) : logu(1600);
		if (!dec) fill_src(t, n);
		size_t at = 0; int guard = 0;
		while (at < n && guard++ < 60) {
			size_t m = rnd_chunk(n - at); if (m > n - at) m = n - at;
			if (dec) op_dec(0, t + at, m); else op_enc(0, t + at, m);
			at += m;
			// another part of the program selects another codec (either kind of init selects both)
			if (below(4)) op_init(below(2) ? 'I' : 'i', 1, FL((int)below(nusable)));
		}
		if (!dec) op_fin(0);
		session_end();
	}
	// one-shot outputs of all codecs on the same inputs, including hostile ones
	rec_every = 200;
	for (long k = 0; k < 1500 * scale; k++) {
		size_t n = anomalous(t, logu(500));
		session_begin(u++);
		for (int c = 0; c < nusable; c++) op_dec1(FL(c), t, n);
		session_end();
		fill_src(t, n); session_begin(u++);
		for (int c = 0; c < nusable; c++) op_enc1(FL(c), t, n);
		session_end();
	}
	// completely random characters, biased to a few classes
	for (long k = 0; k < 1500 * scale; k++) {
		size_t n = logu(600); int bias = (int)below(4);
		for (size_t i = 0; i < n; i++) t[i] = bias == 0 ? (uint8_t)rnd() : below(60 * bias) ? spec_alpha[rnd() & 63] : below(3) ? '=' : rnd_badchar();
		session_begin(u++);
		for (int c = 0; c < nusable; c++) op_dec1(FL(c), t, n);
		session_end();
	}
}

// ------------------------------------------------------------ C12: independent, re-initialisable, copyable states
static void f_multi(long scale) {
	unsigned long long u = 0;
	uint8_t *t = buf(1 << 14);
	g_check_unmoved = 1;
	rec_every = 20;
	for (long k = 0; k < 8000 * scale; k++) {
		int fl = FL((int)below(nusable));
		int nh = 2 + (int)below(MAXH - 1), len = 6 + (int)below(30);
		session_begin(u++);
		op_init(below(2) ? 'i' : 'I', 0, fl);
		for (int i = 0; i < len; i++) {
			int h = (int)below(nh);
			size_t m = below(5) ? below(12) : logu(300);
			switch (hm[h].kind) {
			case 'e':
				if (below(10) == 0) { op_fin(h); break; }
				fill_src(t, m); op_enc(h, t, m); break;
			case 'd': {
				m = anomalous(t, m / 4 + 1); if (below(2)) { size_t d = below(4); if (m >= d) m -= d; }
				if (below(12) == 0) memcpy(t + (m ? m - 1 : 0), "=", 1);
				op_dec(h, t, m); break; }
			default: op_init(below(2) ? 'i' : 'I', h, below(2) ? fl : 0);
			}
			if (below(5) == 0) { int to = (int)below(nh); if (to != h && hm[h].kind) op_copy(h, to); }
			if (below(9) == 0) op_init(below(2) ? 'i' : 'I', (int)below(nh), below(2) ? fl : 0);
			if (below(12) == 0) { size_t q = logu(30); size_t n = anomalous(t, q); op_dec1(below(2) ? fl : 0, t, n); }
			if (below(12) == 0) { size_t q = logu(90); fill_src(t, q); op_enc1(below(2) ? fl : 0, t, q); }
		}
		session_end();
	}
	g_check_unmoved = 0;
}

// ------------------------------------------------------------ C11: calls stay inside their buffers
// The contract of spec/Footprint.tla: a call may read only [0,srclen) of
// the source and write only the first `cap` bytes of the destination, where
// cap is what the specification says the call can produce at most; nothing
// else may change, the source is read-only, and encoding writes precisely
// outlen bytes.
static uint8_t *bounds_out(size_t cap, int mode) {	// mode 1: ends at a guard page, 2: begins at one
	arena_need(&A_out, cap + 1024);
	return mode == 1 ? A_out.base + A_out.size - cap : A_out.base;
}
static void check_margin(uint8_t *out, size_t cap, int mode, uint8_t pat, const char *what) {
	for (size_t i = 0; i < 256; i++) {
		uint8_t v = mode == 1 ? out[-1 - (long)i] : out[cap + i];
		if (v != pat) { snprintf(whybuf, sizeof whybuf, "%s wrote %zu bytes %s its output (capacity %zu)", what, i + 1, mode == 1 ? "before" : "past", cap); violation(whybuf); }
	}
}
static size_t dec_capacity(int st, size_t n) {	// bytes n more characters can complete, from model state st
	size_t p = dec_term[st] ? 0 : (size_t)dec_n[st];
	return dec_term[st] ? 0 : (p + n) * 3 / 4 - p * 3 / 4;
}
static struct base64_state *state_guarded(int h, uint8_t **page) {	// a state struct followed by a guard page
	static uint8_t *m;
	if (!m) { m = mmap(NULL, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED || mprotect(m + pg, pg, PROT_READ | PROT_WRITE)) die("mmap"); }
	(void)h; *page = m + pg;
	return (struct base64_state *)(void *)(m + 2 * pg - sizeof(struct base64_state));
}
// The rest of what belongs to the caller: the registers a call has to give
// back, errno, the modes and the x87 stack of the floating-point unit.
#if defined __aarch64__ || defined __arm__ && defined __ARM_FP
#  define FREG "w"
#elif defined __s390x__
#  define FREG "f"
#endif
static volatile long keep_i[5]; static volatile double keep_f[8];
static const char *call_effect;
static __attribute__((noinline)) int plain_call(int kind, struct base64_state *st, const uint8_t *src, size_t n, uint8_t *out, size_t *outlen, int flags) {
	switch (kind) {
	case 'e': base64_stream_encode(st, (char *)src, n, (char *)out, outlen); return 1;
	case 'd': return base64_stream_decode(st, (char *)src, n, (char *)out, outlen);
	case 'E': base64_encode((char *)src, n, (char *)out, outlen, flags); return 1;
	case 'D': return base64_decode((char *)src, n, (char *)out, outlen, flags);
	case 'f': base64_stream_encode_final(st, (char *)out, outlen); return 1;
	}
	return 0;
}
// The library's own variables (found by vlib/core.py in the linker's map): a
// call on a stream has no business there.  Something computed once may be
// remembered; what keeps changing counts.
int main(int argc, char **argv);
static struct { uint8_t *p; size_t n; } lv[64]; static int nlv; static uint8_t *lv_was; static long lv_changes;
static void lib_vars(int compare) {
	if (!lv_was) {
		lv_was = malloc(1 << 20); if (!lv_was) die("oom");
		FILE *f = fopen(arg("globals", "/dev/null"), "r"); long long a; unsigned long long n; size_t tot = 0;
		while (f && nlv < 64 && fscanf(f, "%lld %llu", &a, &n) == 2 && tot + n <= (1 << 20)) { lv[nlv].p = (uint8_t *)(uintptr_t)main + a; lv[nlv++].n = n; tot += n; }
		if (f) fclose(f);
	}
	uint8_t *w = lv_was;
	for (int i = 0; i < nlv; i++) {
		if (!compare) memcpy(w, lv[i].p, lv[i].n);
		else if (memcmp(w, lv[i].p, lv[i].n) && ++lv_changes > 20) call_effect = "changes a variable of the library, again and again";
		w += lv[i].n;
	}
}
static __attribute__((noinline)) int guarded_call(int kind, struct base64_state *st, const uint8_t *src, size_t n, uint8_t *out, size_t *outlen, int flags) {
	for (int i = 0; i < 5; i++) keep_i[i] = (long)rec_below(1u << 30) * 77771;
	for (int i = 0; i < 8; i++) keep_f[i] = (double)rec_below(1u << 30) / 7;
	long i0 = keep_i[0], i1 = keep_i[1], i2 = keep_i[2], i3 = keep_i[3], i4 = keep_i[4];
	__asm__ volatile ("" : "+r"(i0), "+r"(i1), "+r"(i2), "+r"(i3));
	__asm__ volatile ("" : "+r"(i4));
#ifdef FREG
	double f0 = keep_f[0], f1 = keep_f[1], f2 = keep_f[2], f3 = keep_f[3], f4 = keep_f[4], f5 = keep_f[5], f6 = keep_f[6], f7 = keep_f[7];
	__asm__ volatile ("" : "+" FREG(f0), "+" FREG(f1), "+" FREG(f2), "+" FREG(f3), "+" FREG(f4), "+" FREG(f5), "+" FREG(f6), "+" FREG(f7));
#endif
#ifdef __x86_64__
	unsigned mx0 = __builtin_ia32_stmxcsr(), mx1; unsigned long long fl1;
#endif
	static int lastkind, lastflags; int same = kind == 'e' || kind == 'd' || kind == 'f' || kind == lastkind && flags == lastflags;
	lastkind = kind; lastflags = flags;
	lib_vars(0);
	errno = 0x5A5A;
	int ret = plain_call(kind, st, src, n, out, outlen, flags);
	if (errno != 0x5A5A) call_effect = "changes errno";
#ifdef __x86_64__
	mx1 = __builtin_ia32_stmxcsr(); fl1 = __builtin_ia32_readeflags_u64();
	if ((mx0 ^ mx1) & ~0x3Fu) call_effect = "changes the modes of the floating-point unit";
	if (fl1 & 0x400) call_effect = "leaves the direction flag set";
#endif
#if defined __x86_64__ || defined __i386__
	{ volatile long double a = 1.5L, b = 2.0L; if (a * b != 3.0L) call_effect = "leaves the x87 stack in disorder"; }
#endif
#ifdef FREG
	__asm__ volatile ("" : "+" FREG(f0), "+" FREG(f1), "+" FREG(f2), "+" FREG(f3), "+" FREG(f4), "+" FREG(f5), "+" FREG(f6), "+" FREG(f7));
	if (f0 != keep_f[0] || f1 != keep_f[1] || f2 != keep_f[2] || f3 != keep_f[3] || f4 != keep_f[4] || f5 != keep_f[5] || f6 != keep_f[6] || f7 != keep_f[7]) call_effect = "does not give back its caller's floating-point registers";
#endif
	__asm__ volatile ("" : "+r"(i0), "+r"(i1), "+r"(i2), "+r"(i3));
	__asm__ volatile ("" : "+r"(i4));
	if (i0 != keep_i[0] || i1 != keep_i[1] || i2 != keep_i[2] || i3 != keep_i[3] || i4 != keep_i[4]) call_effect = "does not give back its caller's registers";
	if (same) lib_vars(1);
	return ret;
}
// What a call was seen to touch, for TLC (FootTrace.tla).
static FILE *f_foot; static long foot_lo, foot_hi;
static void foot_scan(const uint8_t *out, size_t cap, int mode, uint8_t pat) {
	long a = mode == 1 ? -256 : 0, b = (long)cap + (mode == 1 ? 0 : 256);
	for (long i = a; i < b; i++) if (out[i] != pat) { if (i < foot_lo) foot_lo = i; if (i + 1 > foot_hi) foot_hi = i + 1; }
}
static void foot_put(const char *op, int pend, int closed, size_t n, size_t outlen) {
	if (foot_hi == LONG_MIN) foot_lo = foot_hi = 0;
	fprintf(f_foot, "{\"op\":\"%s\",\"p\":%d,\"closed\":%s,\"n\":%zu,\"outlen\":%zu,\"lo\":%ld,\"hi\":%ld,\"touched\":[%s%s%s]}\n",
		op, pend, closed ? "true" : "false", n, outlen, foot_lo, foot_hi, call_effect ? "\"" : "", call_effect ? call_effect : "", call_effect ? "\"" : "");
}
static void bounds_call(int kind, int flags, int h, const uint8_t *data, size_t n) {
	// kind: 'e','d' streaming on handle h; 'E','D' one-shot.
	for (int so = 1; so <= 2; so++) for (int oo = 1; oo <= 2; oo++) {
		if (n > 4096 && so != oo) continue;
		struct base64_state before; uint8_t *page; struct base64_state *st = state_guarded(h, &page);
		g_place_src = so; g_ro = 1;
		size_t cap = 0; int m = hm[h].st;
		if (kind == 'e') { cap = 0; int s = m; for (size_t i = 0; i < n; i++) { unsigned e = (unsigned)s * 256 + data[i]; cap += enc_outn[e]; s = enc_next[e]; } }
		if (kind == 'E') cap = 4 * (n / 3) + (n % 3 ? 4 : 0);
		if (kind == 'd') cap = dec_capacity(m, n);
		if (kind == 'D') cap = n * 3 / 4;
		before = *hst[h];
		int foot = f_foot && n < 100000 && rec_below(n < 150 ? 300 : 900) == 0; foot_lo = LONG_MAX; foot_hi = LONG_MIN;
		size_t saved_steps = n_steps; (void)saved_steps;
		for (int pass = 0; pass < 2; pass++) {
			uint8_t pat = pass ? 0xA7 : 0x58;
			uint8_t *out = bounds_out(cap, oo);
			if (oo == 1) memset(out - 256, pat, cap + 256); else memset(out, pat, cap + 256);
			struct op *o = newop((char)kind, h, 0, flags);
			uint8_t *src = get_src(data, n);
			size_t outlen = 0xDEAD, at = 0; int ret = 1;
			o->n = (uint32_t)n; o->so = keep(data, n);
			memset(page, 0x3C, pg); *st = before;
			g_in_call = 1;
			ret = guarded_call(kind, st, src, n, out, &outlen, flags);
			g_in_call = 0;
			o->ret = ret; o->outlen = (uint32_t)(outlen > cap ? 0 : outlen); o->oo = keep(out, o->outlen);
			for (uint8_t *p = page; p < (uint8_t *)st; p++) if (*p != 0x3C) violation("memory before the state structure was written");
			const char *nm = kind == 'e' ? "stream_encode" : kind == 'd' ? "stream_decode" : kind == 'E' ? "base64_encode" : "base64_decode";
			if (foot) { foot_scan(out, cap, oo, pat); if (pass) foot_put(kind == 'e' ? "encode" : kind == 'd' ? "decode" : kind == 'E' ? "encode_once" : "decode_once",
				kind == 'e' ? (enc_finn[m] ? 4 - (int)enc_finn[m] : 0) : kind == 'd' && !dec_term[m] ? (int)dec_n[m] : 0, kind == 'd' && dec_term[m], n, outlen); }
			if (call_effect) { snprintf(whybuf, sizeof whybuf, "%s %s", nm, call_effect); violation(whybuf); }
			check_margin(out, cap, oo, pat, nm);
			if (outlen > cap) { snprintf(whybuf, sizeof whybuf, "%s reports %zu bytes where at most %zu fit", nm, outlen, cap); violation(whybuf); }
			if ((kind == 'e' || kind == 'E') && outlen != cap) { snprintf(whybuf, sizeof whybuf, "%s reports %zu bytes instead of %zu", nm, outlen, cap); violation(whybuf); }
			(void)at;
		}
		*hst[h] = *st; if (!(so == 2 && oo == 2)) *hst[h] = before;
		// the last placement's resulting state is the one the session continues with
		if (kind == 'e' || kind == 'd') {
			if (so == 2 && oo == 2) {
				int s = m;
				if (kind == 'e') for (size_t i = 0; i < n; i++) s = enc_next[(unsigned)s * 256 + data[i]];
				else if (!dec_term[s]) for (size_t i = 0; i < n && s != DEC_ERR; i++) s = dec_next[(unsigned)s * 256 + data[i]];
				hm[h].st = s; n_steps += n;
			}
		}
	}
	g_place_src = 0; g_ro = 0; if (A_src.base) mprotect(A_src.base, A_src.size, PROT_READ | PROT_WRITE);
}
static void bounds_final(int h) {
	for (int oo = 1; oo <= 2; oo++) {
		size_t cap = enc_finn[hm[h].st], outlen = 0xDEAD;
		uint8_t *out = bounds_out(cap, oo);
		if (oo == 1) memset(out - 256, 0x58, cap + 256); else memset(out, 0x58, cap + 256);
		struct base64_state s = *hst[h];
		newop('f', h, 0, 0);
		g_in_call = 1; guarded_call('f', &s, NULL, 0, out, &outlen, 0); g_in_call = 0;
		if (f_foot && rec_below(40) == 0) { foot_lo = LONG_MAX; foot_hi = LONG_MIN; foot_scan(out, cap, oo, 0x58); foot_put("final", cap ? 4 - (int)cap : 0, 0, 0, outlen); }
		if (call_effect) { snprintf(whybuf, sizeof whybuf, "stream_encode_final %s", call_effect); violation(whybuf); }
		check_margin(out, cap, oo, 0x58, "stream_encode_final");
		if (outlen != cap) violation("stream_encode_final: wrong length");
	}
}
extern unsigned long shim_allocs;
static void f_bounds(long scale) {
	unsigned long long u = 0;
	lib_vars(0);
	if (strcmp(arg("foot", ""), "")) { f_foot = fopen(arg("foot", ""), "w"); if (!f_foot) die("foot"); }
	shim_allocs = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		size_t L = scale >= 4 ? 700 : 260; if (scale > 10) L = 3000;
		for (size_t n = 0; n <= L; n++) {
			uint8_t *b = buf(n + 16);
			fill_src(b, n); session_begin(u++); bounds_call('E', fl, 0, b, n); session_end();
			rnd_text(b, n / 4 + 1, 0); session_begin(u++); bounds_call('D', fl, 0, b, n); session_end();
			size_t m = rnd_text(b, n / 4, n >= 4 ? (int)(n % 3) : 0); session_begin(u++); bounds_call('D', fl, 0, b, m); session_end();
			if (m) { b[below(m)] = rnd_badchar(); session_begin(u++); bounds_call('D', fl, 0, b, m); session_end(); b[below(m)] = '='; session_begin(u++); bounds_call('D', fl, 0, b, n); session_end(); }
		}
		// streaming: every phase x every length
		for (int ph = 0; ph < 4; ph++) for (size_t n = 0; n <= (scale >= 4 ? 300u : 120u); n++) {
			uint8_t *b = buf(n + 16), pre[4];
			if (ph < 3) {
				fill_src(pre, 3); fill_src(b, n);
				session_begin(u++); op_init('i', 0, fl); op_enc(0, pre, ph); bounds_call('e', 0, 0, b, n); bounds_final(0); session_end();
			}
			rnd_text(b, n / 4 + 2, 0); rnd_text(pre, 1, 0);
			if (n % 5 == 1) b[below(n)] = rnd_badchar(); if (n % 5 == 2) b[below(n)] = '='; if (n % 5 == 3 && n > 1) b[n - 1] = '=';
			session_begin(u++); op_init('I', 0, fl); op_dec(0, pre, ph); bounds_call('d', 0, 0, b, n); bounds_call('d', 0, 0, b, below(n + 1)); session_end();
		}
		// an anomaly at every position: the decoder must not run on or write ahead
		for (size_t n = 4; n <= (scale >= 4 ? 200u : 100u); n += 4 + 4 * below(6)) for (size_t p = 0; p < n; p++) {
			uint8_t *b = buf(n + 16); rnd_text(b, n / 4, 0); b[p] = below(2) ? '=' : rnd_badchar();
			session_begin(u++); bounds_call('D', fl, 0, b, n); session_end();
		}
		for (size_t i = 0, n; (n = round_len(i, scale)); i++) {
			uint8_t *b = buf(n + 16), pre[4]; size_t ph = below(4);
			fill_src(b, n); session_begin(u++); bounds_call('E', fl, 0, b, n); session_end();
			rnd_text(b, n / 4 + 1, 0); if (below(2)) b[n - 1] = '='; session_begin(u++); bounds_call('D', fl, 0, b, n); session_end();
			rnd_text(pre, 1, 0); session_begin(u++); op_init('I', 0, fl); op_dec(0, pre, ph); bounds_call('d', 0, 0, b, n); session_end();
		}
		for (long k = 0; k < 40 * scale; k++) {
			size_t n = logu(1 << 17); uint8_t *b = buf(n + 16);
			fill_src(b, n); session_begin(u++); bounds_call('E', fl, 0, b, n); session_end();
			n = anomalous(b, n / 8); session_begin(u++); bounds_call('D', fl, 0, b, n); session_end();
		}
		for (long k = 0; k < 200 * scale; k++) {
			session_begin(u++); int dec = (int)below(2); op_init(dec ? 'I' : 'i', 0, fl);
			for (int i = 0; i < 6; i++) { size_t n = k % 16 == 0 && i % 3 == 1 ? logu(1 << 16) : logu(700); uint8_t *b = buf(n + 16); if (dec) { if (below(4)) rnd_text(b, n / 4 + 1, 0); else n = anomalous(b, n / 4); } else fill_src(b, n); bounds_call(dec ? 'd' : 'e', 0, 0, b, n); }
			if (!dec) bounds_final(0);
			session_end();
		}
	}
	if (f_foot) fclose(f_foot);
	if (shim_allocs) violation("a library call used the heap");
}

// ------------------------------------------------------------ C18: every table entry, as the codecs use it
static void f_tables(long scale) {
	unsigned long long u = 0;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		rec_every = 4000;
		// every 12-bit index in either half of a group, in the bulk loop
		for (int half = 0; half < 2; half++) {
			uint8_t *b = buf(3 * 4096 + 64); fill_src(b, 3 * 4096 + 64);
			for (unsigned v = 0; v < 4096; v++) { unsigned g = half ? ((unsigned)below(4096) << 12 | v) : (v << 12 | (unsigned)below(4096));
				b[3 * v] = g >> 16; b[3 * v + 1] = (g >> 8) & 255; b[3 * v + 2] = g & 255; }
			enc_one(u++, fl, b, 3 * 4096 + 64);
		}
		// every byte in either position of the tail
		for (int v = 0; v < 65536; v += (scale >= 2 ? 1 : 7)) { uint8_t b[2] = { v >> 8, v & 255 }; enc_one(u++, fl, b, 2); if (v < 256) { b[0] = v; enc_one(u++, fl, b, 1); } }
		// every character in every position of a quantum that a bulk loop sees, and of the tail
		size_t Q[] = { 1, 2, 3, 9, 13, 24 };
		for (int k = 0; k < 6; k++) for (size_t p = 0; p < 4 * Q[k]; p++) {
			size_t n = 4 * Q[k]; uint8_t *t = buf(n + 4);
			for (int bg = 0; bg < (scale >= 2 ? 4 : 1); bg++) {
				rnd_text(t, Q[k], 0); if (bg == 1) memset(t, 'A', n); if (bg == 2) memset(t, '/', n); uint8_t old = t[p];
				for (int v = 0; v < 256; v++) { t[p] = (uint8_t)v; dec_one(u++, fl, t, n); }
				t[p] = old;
			}
		}
		// two characters outside the alphabet in one quantum
		{ size_t n = 96; uint8_t *t = buf(n);
		for (int p = 0; p < 3; p++) for (int v = 0; v < 256; v++) { if (spec_value[v] < 64) continue; for (int w = 0; w < 256; w += (scale >= 2 ? 1 : 5)) { if (spec_value[w] < 64) continue;
			if (!(w & 15)) rnd_text(t, n / 4, 0); uint8_t x = t[8 + p], y = t[9 + p]; t[8 + p] = (uint8_t)v; t[9 + p] = (uint8_t)w; dec_one(u++, fl, t, n); t[8 + p] = x; t[9 + p] = y; } } }
	}
}

// ------------------------------------------------------------ C10: OpenMP
extern int shim_delay;
#ifdef _OPENMP
extern const unsigned char *shim_plan; extern int shim_nplan; extern volatile int shim_at, shim_off; extern int shim_together; extern volatile int shim_back;
// Every order of the workers' calls (OmpRace.tla), and all of them at once.
static void omp_orders(int c, size_t thr, long scale, unsigned long long *u) {
	int fl = FL(c), lost = 0; g_threads = 0;
	static char line[4096]; static unsigned char pl[64];
	const char *name = arg("plans", NULL); FILE *f = name ? fopen(name, "r") : NULL;
	if (name && !f) die("plans");
	long n_plans = 0, kept = 0;
	while (f && fgets(line, sizeof line, f)) {
		int T = 0, n = 0, k; char *p = line, *e;
		for (; (k = (int)strtol(p, &e, 10)), e != p; p = e) { pl[n++] = (unsigned char)k; if (k / 3 >= T) T = k / 3 + 1; }
		if (T > 2 && below(scale >= 12 ? 2 : 12)) continue;
		omp_set_num_threads(T);
		size_t len = (thr + 4 * T - 1) / (4 * T) * 4, N = len * T; uint8_t *t = buf(N + 16);
		for (int rep = 0; rep < 4 && lost < 5; rep++) {
			// every combination of whole, damaged and padded parts in turn
			if (rep == 3) fill_src(t, N); else {
				rnd_text(t, N / 4, 0);
				for (int i = 0; i < T; i++) { int kind = rep == 0 ? 0 : rep == 1 ? (i == T - 1 ? 2 : 0) : (int)below(3); size_t z = (i + 1) * len;
					if (kind == 1) t[z - 1 - below(len)] = rnd_badchar(); else if (kind == 2) { t[z - 1] = '='; if (below(2)) t[z - 2] = '='; } }
			}
			shim_plan = pl; shim_nplan = n; shim_at = shim_off = 0;
			if (rep == 3) enc_one((*u)++, fl, t, N); else dec_one((*u)++, fl, t, N);
			if (shim_at == n) kept++, lost = 0; else lost++;
			n_plans++; shim_plan = NULL;
		}
	}
	if (f) fclose(f);
	shim_together = 1;
	for (int k = 0; k < (thr < 1000 ? 700 : 60) * scale; k++) {
		int T = 2 + (int)below(3); omp_set_num_threads(T);
		size_t len = (thr + 4 * T - 1) / (4 * T) * 4, N = len * T + below(4); uint8_t *t = buf(N + 64);
		shim_back = 0;
		if (below(3)) { N = rnd_text(t, N / 4, 0); dec_one((*u)++, fl, t, N); } else { fill_src(t, N); enc_one((*u)++, fl, t, N); }
	}
	shim_together = 0;
	n_orders += n_plans; n_orders_kept += kept;
}
#endif
static void f_omp(long scale) {
#ifdef _OPENMP
	unsigned long long u = 0;
	size_t thr = (size_t)argl("thr", 20000);
	static const int TS[] = { 1, 2, 3, 4, 5, 7, 8, 13, 16, 24 };
	int nts = (int)(sizeof TS / sizeof *TS);
	g_omp_relaxed = 1;
	for (int c = 0; c < nusable; c++) {
		int fl = FL(c);
		for (int ti = 0; ti < nts; ti++) {
			int T = TS[ti]; omp_set_num_threads(T); g_threads = T;
			uint8_t *t = buf(64 * thr + 4096);
			rec_every = thr < 1000 ? 200 : 1;
			if (thr < 1000) {
				// the specification's own instances: all words over a class alphabet
				static const uint8_t cls[] = { 'Q', '=', '!' };
				int maxl = T <= 3 ? (scale >= 4 ? 10 : 9) : 8;
				for (int l = (int)thr; l <= maxl; l++) {
					long N = 1; for (int i = 0; i < l; i++) N *= 3;
					long step = T <= 3 ? 1 : 5;
					for (long v = below(step); v < N; v += step) { long x = v; for (int i = 0; i < l; i++, x /= 3) t[i] = cls[x % 3]; dec_one(u++, fl, t, l); }
				}
				static const char *quanta[] = { "QUJD", "QQ==", "QUI=", "Q!JD", "QQ=Q", "====", "/+8A", "QUI!" };
				static const char *tails[] = { "", "=", "Q", "QQ", "QQ=", "QQ==", "!", "Q=" };
				for (int q = 2; q <= 4; q++) { long N = 1; for (int i = 0; i < q; i++) N *= 8;
					for (long v = 0; v < N; v += (q < 4 ? 1 : 1 + (long)below(9))) for (int k = 0; k < 8; k++) {
						long x = v; size_t n = 0; for (int i = 0; i < q; i++, x /= 8) { memcpy(t + n, quanta[x % 8], 4); n += 4; }
						strcpy((char *)t + n, tails[k]); n += strlen(tails[k]); dec_one(u++, fl, t, n); } }
			}
			// lengths: every residue of the split
			size_t w = thr < 1000 ? 12 * T + 40 : 6 * T + 8;
			for (size_t n = thr > 4 ? thr - 4 : 0; n <= thr + w; n++) {
				fill_src(t, n); enc_one(u++, fl, t, n);
				rnd_text(t, n / 4 + 1, 0); if (n % 4 == 0 && n) { size_t np = below(3); for (size_t i = 0; i < np; i++) t[n - 1 - i] = '='; } dec_one(u++, fl, t, n);
			}
			// damage at and around the boundaries of the parts
			for (int rep = 0; rep < (thr < 1000 ? 3 * scale : scale); rep++) {
				size_t q = thr / 4 + 1 + below(thr < 1000 ? 60 : 4 * T + 40); size_t n = 4 * q, len = n / (T * 4) * 4;
				for (int i = 0; i <= T; i++) for (int d = -5; d <= 4; d++) {
					long p = (long)(i * len) + d; if (p < 0 || (size_t)p >= n) continue;
					int kinds = thr < 1000 || T <= 4 ? 4 : 1;
					for (int k = 0; k < kinds; k++) {
						rnd_text(t, q, (int)below(3));
						switch (kinds == 1 ? (int)below(4) : k) {
						case 0: t[p] = '='; break;
						case 1: t[p] = rnd_badchar(); break;
						case 2: t[p] = '='; if ((size_t)p + 1 < n) t[p + 1] = '='; break;
						default: t[p] = '='; if (p) t[p - 1] = '='; break;
						}
						dec_one(u++, fl, t, n - (below(6) == 0 ? below(4) : 0));
					}
				}
			}
			// sizes at random, intact and damaged
			for (long k = 0; k < 6 * scale; k++) {
				size_t n = thr + logu(thr < 1000 ? 4000 : 40 * thr);
				fill_src(t, n); enc_one(u++, fl, t, n);
				n = anomalous(t, n / 4 + 1); dec_one(u++, fl, t, n);
			}
		}
		// many more threads than processors, and teams the machine adjusts
		static const int MANY[] = { 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513 };
		for (int ti = c & 1; ti < 18; ti += thr < 1000 || scale >= 4 ? 1 : 2) {
			int T = MANY[ti]; omp_set_num_threads(T); g_threads = T;
			size_t k4 = T * 4, q = (thr + (thr < k4 ? k4 : 0)) / 4 + 2 + below(T);
			uint8_t *t = buf(4 * q + 64); size_t n = 4 * q - below(3);
			fill_src(t, n); enc_one(u++, fl, t, n);
			n = rnd_text(t, q, (int)below(3)); dec_one(u++, fl, t, n);
			size_t len = n / k4 * 4, part = below(3) ? below(T) : (size_t)T - 1, p = part * len + below(len ? len : 1);
			t[p] = below(2) ? '=' : rnd_badchar(); dec_one(u++, fl, t, n);
			omp_set_dynamic(1); g_threads = 0;
			fill_src(t, n); enc_one(u++, fl, t, n); n = anomalous(t, q); dec_one(u++, fl, t, n);
			omp_set_dynamic(0);
		}
		// many rounds with delays injected after each thread's codec call
		shim_delay = 1;
		for (int k = 0; k < 25 * scale; k++) {
			int T = 2 + (int)below(7); omp_set_num_threads(T); g_threads = T;
			size_t n = thr + below(thr); uint8_t *t = buf(2 * thr + 64);
			fill_src(t, n); enc_one(u++, fl, t, n);
			n = anomalous(t, n / 4); if (n >= thr) dec_one(u++, fl, t, n);
			n = rnd_text(t, thr / 4 + 1 + below(thr / 8 + 1), (int)below(3)); dec_one(u++, fl, t, n);
		}
		shim_delay = 0;
		omp_orders(c, thr, scale, &u);
		// from inside a parallel region (a team of one, or a nested team)
		for (int k = 0; k < 4; k++) {
			omp_set_max_active_levels(k & 1 ? 2 : 1); omp_set_num_threads(3); g_threads = 0;
			size_t n = thr + below(thr);
			#pragma omp parallel num_threads(2)
			#pragma omp single
			{ uint8_t *t = buf(2 * thr + 64); fill_src(t, n); enc_one(u++, fl, t, n); n = rnd_text(t, n / 4, 2); dec_one(u++, fl, t, n); }
		}
		omp_set_max_active_levels(1);
	}
	g_omp_relaxed = 0;
#else
	(void)scale; die("not an OpenMP build");
#endif
}

// ------------------------------------------------------------ C17: forcing codecs
#ifdef SEL_TABLES
#include <sys/wait.h>
#include <time.h>
extern unsigned shim_sub;
static int pick_flags(int multi) {
	int f;
	switch (below(multi ? 10 : 6)) {
	case 0: f = 0; break;
	case 1: case 2: case 3: f = CODECS[1 + below(NCODECS - 1)].flag; break;
	case 4: f = CODECS[1 + below(NCODECS - 1)].flag; if (below(2)) f |= 1 << (16 + below(14)); break;
	case 5: f = below(2) ? 0 : 1 << (16 + below(14)); break;
	case 6: f = (int)below(512); break;
	case 7: f = 1 << (9 + below(7)); break;
	case 8: f = CODECS[1 + below(NCODECS - 1)].flag | 1 << (9 + below(7)); break;
	default: f = (int)(rnd() & 0x3FFFFFFF); break;
	}
	return f;
}
static size_t flags_thr;	// OpenMP builds: lengths at and above which a call is divided
static size_t flags_len(size_t n) { return flags_thr && below(2) ? flags_thr + below(flags_thr / 2 + 40) : n; }
static void flags_step(int multi, int nh) {
	static uint8_t t[65536];
	int h = (int)below(nh); size_t n = below(4) ? below(40) : logu(600);
	switch (hm[h].kind) {
	case 'e': if (below(8) == 0) { op_fin(h); return; } break;
	case 'd': break;
	default: op_init(below(2) ? 'i' : 'I', h, pick_flags(multi)); return;
	}
	switch (below(8)) {
	case 0: op_init(below(2) ? 'i' : 'I', h, pick_flags(multi)); return;
	case 1: n = flags_len(n); fill_src(t, n); op_enc1(pick_flags(multi), t, n); return;
	case 2: n = flags_len(n); n = rnd_text(t, n / 4, (int)below(3)); if (n && below(4) == 0) t[below(n)] = rnd_badchar(); op_dec1(pick_flags(multi), t, n); return;
	default:
		if (hm[h].kind == 'e') { fill_src(t, n); op_enc(h, t, n); }
		else { rnd_text(t, n / 4 + 1, 0); if (n && below(9) == 0) t[below(n)] = below(2) ? '=' : rnd_badchar(); op_dec(h, t, n); }
	}
}
// One process from its very first call of the library.
static void flags_session(unsigned long long u, int first, int f, int len, int multi) {
	static uint8_t t[65536];
	session_begin(u); g_sel_at_start = "none"; cand = 1u << 15; g_auto_id = 0; g_stub = 0;
	int h = (int)below(3); size_t n = flags_len(below(100));
#ifdef _OPENMP
	omp_set_num_threads(1 + (int)below(4)); g_omp_relaxed = flags_thr != 0;
#endif
	switch (first) {
	case 0: op_init('i', h, f); break;
	case 1: op_init('I', h, f); break;
	case 2: fill_src(t, n); op_enc1(f, t, n); break;
	default: n = rnd_text(t, n / 4, (int)below(3)); op_dec1(f, t, n); break;
	}
	// straight away: both directions go through what was selected
	op_init('i', 3, 0); op_init('I', 4, 0); fill_src(t, 60); op_enc(3, t, 50); rnd_text(t, 20, 0); op_dec(4, t, 80);
	for (int i = 0; i < len; i++) flags_step(multi, 5);
	for (int k = 0; k < 5; k++) if (hm[k].kind == 'e') op_fin(k);
	session_end();
}
static void f_flags(long scale) {
	char *av = strdup(arg("avail", "plain"));
	int multi = (int)argl("multi", 1);
	for (char *p = strtok(av, ","); p; p = strtok(NULL, ",")) for (int i = 1; i < NCODECS; i++) if (!strcmp(p, CODECS[i].name)) { avail_mask |= 1u << i; if (!cpu_has(i)) shim_sub |= 1u << i; }
	g_flags_mode = 1; flags_thr = (size_t)argl("thr", 0);
	unsigned long long *tot = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	long total = 0, every = argl("every", 1); uint64_t base = rnd();
	long per = nrec;
	for (int first = 0; first < 4; first++) for (int f = -1; f < 1024 + 40 * scale; f++) {
		long idx = total++;
		if (f >= 0 && idx % every && (f & (f - 1))) continue;
		rs[0] = base + (uint64_t)idx * 77; rs[1] = base ^ (uint64_t)(idx * 1234567); for (int i = 0; i < 8; i++) rnd();
		int fl = f < 0 ? 0 : f < 1024 ? (f & 0x1FF) | (f & 0x200 ? 1 << (9 + below(7)) : 0) : pick_flags(multi);
		if (!multi) { if ((fl & 0xFE00) || __builtin_popcount(fl & 0x1FF) > 1) continue; }
		if (f_rec) fflush(f_rec);
		nrec = per > 0 && (f == 0 || f == 256 || f == 8 || rec_below((size_t)(4 * total / 3 + 8)) < (size_t)per) ? 1 : 0;
		pid_t p = fork(); if (p < 0) die("fork");
		if (!p) {
			n_calls = n_steps = 0; memset(n_ret, 0, sizeof n_ret);
			flags_session((unsigned long long)idx, first, fl, 10 + (int)below(30), multi);
			tot[0] += n_calls; tot[1] += n_steps; tot[2]++; tot[3] += n_ret[0]; tot[4] += n_ret[1]; tot[5] += n_ret[2]; tot[6] += n_recorded;
			if (f_rec) fflush(f_rec);
			_exit(0);
		}
		int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) die("waitpid");
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1) _exit(1);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) die("child ended unexpectedly");
	}
	n_calls = tot[0]; n_steps = tot[1]; n_sessions = tot[2]; n_ret[0] = tot[3]; n_ret[1] = tot[4]; n_ret[2] = tot[5]; n_recorded = tot[6];
}
#endif

// ------------------------------------------------------------ replay
static size_t unhex(const char *s, uint8_t *o) {
	if (*s == '-') return 0;
	size_t n = 0; unsigned v;
	while (s[0] && s[1] && sscanf(s, "%2x", &v) == 1) { o[n++] = (uint8_t)v; s += 2; }
	return n;
}
static void f_replay(long scale) {
	(void)scale;
	FILE *f = fopen(arg("file", ""), "r"); if (!f) die("cannot read the script");
	static char line[1 << 22]; static char hs[1 << 21]; uint8_t *b = malloc(1 << 20);
	session_begin(0);
	rec_every = 1;
	while (fgets(line, sizeof line, f)) {
		if (line[0] == '#' || line[0] == '\n') continue;
		if (line[0] == 'S') { session_end(); session_begin(0); continue; }
		char code; int h, h2, fl, ret, cd; unsigned n, ol;
		if (sscanf(line, "%c %d %d %d %d %d %u %u %2097151s", &code, &h, &h2, &fl, &ret, &cd, &n, &ol, hs) < 9) die("bad script line");
		size_t m = unhex(hs, b);
		switch (code) {
		case 'i': case 'I': op_init(code, h, fl); break;
		case 'e': op_enc(h, b, m); break;
		case 'd': op_dec(h, b, m); break;
		case 'f': op_fin(h); break;
		case 'c': op_copy(h, h2); break;
		case 'E': op_enc1(fl, b, m); break;
		case 'D': op_dec1(fl, b, m); break;
		}
	}
	session_end();
	fclose(f);
}

static const struct { const char *name; void (*fn)(long); } FAMILIES[] = {
	{ "tables", f_tables },
	{ "enc1", f_enc1 }, { "encs", f_encs }, { "decvalid", f_dec_valid }, { "decbad", f_dec_bad }, { "decs", f_decs },
	{ "latch", f_latch }, { "switch", f_switch }, { "multi", f_multi }, { "bounds", f_bounds }, { "omp", f_omp }, { "replay", f_replay },
#ifdef SEL_TABLES
	{ "flags", f_flags },
#endif

};
