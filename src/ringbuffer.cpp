// ring-buffer-history: every push/pop/allocate history of the real RingBuffer against a plain queue.
#include "mc.h"
#include <EKF/RingBuffer.h>
#include <deque>

struct S {
	uint64_t time_us{0};
	int id{0};
	float payload[3] {};
	static long live;
	S() { live++; }
	S(const S &o) : time_us(o.time_us), id(o.id), payload{o.payload[0], o.payload[1], o.payload[2]} { live++; }
	S &operator=(const S &o) = default;
	~S() { live--; }
};
long S::live = 0;

struct Model {
	size_t cap{1};
	std::deque<S> q;
	void push(const S &s) { if (q.size() == cap) { q.pop_front(); } q.push_back(s); }
	bool pop(uint64_t t, S &out)
	{
		for (int i = int(q.size()) - 1; i >= 0; i--) {
			if (q[i].time_us <= t && t < q[i].time_us + 100000) {
				out = q[i];
				q.erase(q.begin(), q.begin() + i + 1);
				return true;
			}
		}

		return false;
	}
};

static S mk(uint64_t t, int id)
{
	S s;
	s.time_us = t;
	s.id = id;
	s.payload[0] = id * 1.5f;
	s.payload[1] = -id;
	s.payload[2] = id + 0.25f;
	return s;
}
static bool same(const S &a, const S &b)
{
	return a.time_us == b.time_us && a.id == b.id && a.payload[0] == b.payload[0] && a.payload[1] == b.payload[1] && a.payload[2] == b.payload[2];
}

static void check_view(RingBuffer<S> &rb, const Model &m, const char *where)
{
	MC_CHECK(rb.get_length() == m.cap, "length", "get_length()=%d, allocated %zu (after %s)", rb.get_length(), m.cap, where);
	MC_CHECK(rb.valid(), "valid", "valid() is false after %s", where);

	if (!m.q.empty()) {
		MC_CHECK(same(rb.get_newest(), m.q.back()), "newest", "get_newest() is #%d t=%" PRIu64 ", last pushed is #%d t=%" PRIu64 " (after %s)",
			 rb.get_newest().id, rb.get_newest().time_us, m.q.back().id, m.q.back().time_us, where);
		MC_CHECK(same(rb.get_oldest(), m.q.front()), "oldest", "get_oldest() is #%d, oldest retained is #%d (after %s)",
			 rb.get_oldest().id, m.q.front().id, where);

		for (size_t i = 0; i < m.q.size(); i++) {
			const S &e = rb[uint8_t((rb.get_oldest_index() + i) % m.cap)];
			MC_CHECK(same(e, m.q[i]), "iterate", "entry %zu from the oldest is #%d, expected #%d (after %s)", i, e.id, m.q[i].id, where);
		}
	}
}

static bool do_pop(RingBuffer<S> &rb, Model &m, uint64_t t, const char *where)
{
	S got = mk(12345, -7), exp;
	const bool g = rb.pop_first_older_than(t, &got);
	const bool e = m.pop(t, exp);
	mc::note("pop(%" PRIu64 ") -> %d #%d; expected %d #%d", t, g, g ? got.id : -1, e, e ? exp.id : -1);
	MC_CHECK(g == e, g ? "pop-spurious" : "pop-missed", "pop_first_older_than(%" PRIu64 ") returned %s #%d t=%" PRIu64 ", the reference %s #%d (%s)",
		 t, g ? "sample" : "nothing, not", got.id, got.time_us, e ? "has" : "has nothing", e ? exp.id : -1, where);

	if (g && e) {
		MC_CHECK(same(got, exp), "pop-wrong", "pop(%" PRIu64 ") returned #%d t=%" PRIu64 ", expected #%d t=%" PRIu64, t, got.id, got.time_us, exp.id, exp.time_us);
	}

	if (!g) { MC_CHECK(got.id == -7 && got.time_us == 12345, "pop-clobber", "a failed pop modified the caller's sample"); }

	return g == e;
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, "ring-buffer-history");
	const int depth = mc::thorough() ? 7 : 6;
	mc::rule("part 1: all sequences of operations up to the depth bound (quick 6 for capacity 2 at the 1 s base and 5 elsewhere, thorough 7 and 6) over pushes with time steps {0,+40ms,+99.999ms,+150ms,-50ms}, "
		 "pops at {t-1us, t, t+99.999ms, t+100ms} of the newest, second and third newest retained sample, reallocation (same, larger, zero), for capacities 1..4 and "
		 "time bases {1 ms, 1 s, straddling 2^32 us, 2^40 us}; the reference is a bounded queue. part 2: every capacity 1..255, every fill level up to two laps (quick: all levels for capacities up to 24, 128, 254, 255; the wrap positions for the others), "
		 "a pop at 6 positions, then a drain. A state is the reference queue contents relative to the base with the capacity.");

	const uint64_t bases[4] = {1000, 1000000, (1ull << 32) - 60000, 1ull << 40};

	mc::explore("histories", mc::ODOMETER, [&]() {
		const int cap = 1 + mc::choose(4);
		const int nb = mc::choose(4);
		const uint64_t base = bases[nb];
		mc::note("RingBuffer of capacity %d, time base %" PRIu64, cap, base);
		const long live0 = S::live;

		{
		RingBuffer<S> rb(cap);
		Model m;
		m.cap = cap;
		uint64_t last = base;
		int id = 1;
		// base 1 and 3 are explored one operation less deep: they only differ in the absolute time
		const int d = (nb == 1 && (mc::thorough() || cap == 2)) ? depth : depth - 1;

		for (int k = 0; k < d; k++) {
			const int npop = 4 * int(m.q.size() < 3 ? m.q.size() : 3);
			const int c = mc::choose(5 + 3 + 2 + npop);
			mc::transition();
			bool ok = true;

			if (c < 5) {
				static const int64_t dt[5] = {40000, 99999, 0, 150000, -50000};
				const int64_t nt = int64_t(last) + dt[c];
				last = nt > 0 ? uint64_t(nt) : 1;
				mc::note("push #%d t=%" PRIu64, id, last);
				const S s = mk(last, id++);
				rb.push(s);
				m.push(s);

			} else if (c == 5) {
				MC_CHECK(rb.allocate(uint8_t(m.cap)), "realloc-same", "allocate(same size) failed");

			} else if (c == 6) {
				mc::note("allocate(%zu)", m.cap + 1);
				MC_CHECK(rb.allocate(uint8_t(m.cap + 1)), "realloc", "allocate(%zu) failed", m.cap + 1);
				m.cap++;
				m.q.clear();

			} else if (c == 7) {
				MC_CHECK(!rb.allocate(0), "realloc-zero", "allocate(0) succeeded");

			} else if (c == 8) {
				ok = do_pop(rb, m, base, "pop at the time base");

			} else if (c == 9) {
				ok = do_pop(rb, m, last + 500000, "pop far ahead");

			} else {
				static const int64_t off[4] = {-1, 0, 99999, 100000};
				const S &e = m.q[m.q.size() - 1 - (c - 10) / 4];
				ok = do_pop(rb, m, e.time_us + off[(c - 10) % 4], "pop relative to a retained sample");
			}

			check_view(rb, m, "the last operation");
			uint64_t h = mc::mix(m.cap, nb);

			for (const S &e : m.q) { h = mc::mix(h, e.time_us - base); h = mc::mix(h, e.id); }

			mc::visit(h);

			if (!ok) { mc::end_path(); }
		}

		mc::outcome(mc::mix(m.q.size(), m.cap));

		if (m.q.size() == 2 && id == 5) { mc::sample("capacity %d base %" PRIu64 ": %d operations, %d pushes, %zu retained at the end", cap, base, d, id - 1, m.q.size()); }
		}

		MC_CHECK(S::live == live0, "leak", "%ld samples are still alive after the buffer was destroyed", S::live - live0);
	}, 3);

	mc::for_all("sizes", 255ull * 6, [&](uint64_t i) {
		const int size = 1 + int(i / 6);
		const int where = int(i % 6);

		for (int npush = 0; npush <= 2 * size + 1; npush++) {
			// quick: every fill level for the small and the largest sizes, the wrap positions otherwise
			if (!mc::thorough() && size > 24 && size != 128 && size < 254 && npush > 2 && npush < 2 * size && abs(npush - size) > 2) { continue; }

			RingBuffer<S> rb(size);
			RingBuffer<S> other(3);   // an independent buffer used in between
			Model m, mo;
			m.cap = size;
			mo.cap = 3;

			for (int k = 0; k < npush; k++) {
				const S s = mk(1000000 + 120000ull * k, k + 1);
				rb.push(s);
				m.push(s);
			}

			mc::transition(npush);

			if (npush) {
				check_view(rb, m, "filling");
				const int n = int(m.q.size());
				const int idx[6] = {n - 1, n - 2, n / 2, 1, 0, -1};
				const int w = idx[where];

				if (w >= n) { continue; }

				const uint64_t t = w < 0 ? 900000 : m.q[w].time_us + 50000;
				do_pop(rb, m, t, "size sweep");
				const S s = mk(1000000 + 120000ull * npush, npush + 1);
				rb.push(s);
				m.push(s);
				const S so = mk(777777 + 60000ull * npush, -npush);
				other.push(so);
				mo.push(so);
				check_view(rb, m, "pop and push");
				check_view(other, mo, "independent buffer");
				// drain oldest first
				uint64_t guard = 0;

				while (!m.q.empty() && guard++ < 600) { do_pop(rb, m, m.q.front().time_us, "drain"); }

				do_pop(rb, m, 1000000 + 120000ull * npush, "after the drain");
				mc::transition(guard + 2);
			}

			mc::visit(mc::mix(mc::mix(size, npush), where + 1000));
		}
	});
	return mc::finish();
}
