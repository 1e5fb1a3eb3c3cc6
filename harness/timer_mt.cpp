#include "util.h"
#include <functional>
// timers stopped and armed by another thread than the one that updates them
struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
extern "C" {
	// stop() says whether it came in time, and the callback says the same
	void h_tmmt_stop() {
		int n = rf_param("n", 1), two = rf_param("two", 0); rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; auto m = std::make_shared<timer_manager>(); int call[2] = {}, canc[2] = {}; bool got[2] = {}, got2[2] = {}; timer_handler h[2], h2[2]; int up = rf_choose("up", 2), how = rf_choose("how", 3);
			for (int i = 0; i < n; ++i) { int due = rf_choose("due", 2) ? 150 : 100; h[i] = m->add_handler(at(due), [&, i](bool c) { ++call[i]; canc[i] = c; }); h2[i] = h[i]; }
			if (up) m->update();
			rf_clock_ns = rf_choose("now", 2) ? 150 : 120;
			{ Th t([&] { for (int i = n; i--;) got[i] = h[i].stop(); });
			  if (two) { Th u([&] { for (int i = 0; i < n; ++i) got2[i] = h2[i].stop(); }); m->update(); m->update(); u.join(); } else if (how == 0) m->update(); else if (how == 1) { m->update(); m->update(); } else m->clear();
			  t.join(); }
			rf_clock_ns = 200; m->update(); m->update();
			for (int i = 0; i < n; ++i) { rf_check(call[i] == 1, "called exactly once"); rf_check(!(got[i] && got2[i]), "one stop at most is the one that stopped it"); if (how == 2 && !two) rf_check(!got[i] || canc[i], "stopped in time: cancelled"); else rf_check((got[i] || got2[i]) == (canc[i] != 0), "cancelled exactly if a stop came in time"); }
			rf_check(m->empty(), "none left"); }
		rf_reach("stop end");
	}
	// armed by another thread while the owner updates
	void h_tmmt_add() {
		rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; auto m = std::make_shared<timer_manager>(); int call[3] = {}, canc[3] = {}, pos = 0, where[3] = {}; bool got = false; int due[3] = {150, rf_choose("due", 2) ? 150 : 90, rf_choose("due", 2) ? 150 : 160}, stop = rf_choose("stop", 2), clr = rf_choose("clear", 2), act[2]; 
			auto arm = [&](int i) { return m->add_handler(at(due[i]), [&, i](bool c) { ++call[i]; canc[i] = c; where[i] = ++pos; rf_check(rf_tid() == act[0], "on the thread that updates"); }); }; act[0] = rf_tid();
			arm(0); { Th t([&] { auto h = arm(1); arm(2); if (stop) got = h.stop(); }); m->update(); if (clr) m->clear(); else m->update(); t.join(); }
			rf_check(clr || call[0] == 0, "not early"); rf_clock_ns = 200; m->update(); m->update();
			for (int i = 0; i < 3; ++i) { rf_check(call[i] == 1, "called exactly once"); if (!clr) rf_check((canc[i] != 0) == (i == 1 && got), "cancelled exactly if stopped"); } if (got) rf_check(canc[1], "stopped: cancelled"); rf_check(m->empty(), "none left"); }
		rf_reach("add end");
	}
	// the manager goes while another thread stops one of its timers
	void h_tmmt_gone() {
		rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; int call = 0, canc = 0; bool got = false; timer_handler h; auto m = std::make_shared<timer_manager>(); h = m->add_handler(at(150), [&](bool c) { ++call; canc = c; }); if (rf_choose("up", 2)) m->update();
			{ Th t([&] { got = h.stop(); }); m.reset(); t.join(); } rf_check(call == 1 && canc, "cancelled exactly once"); (void)got; rf_check(h.expired(), "nothing left behind"); }
		rf_reach("gone end");
	}
}
