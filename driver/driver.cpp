// Interpreter of the public libvoikko API: one command per input line, one JSON value per output line.
// Fields of a command are separated by TAB; strings are lists of decimal code points (or bytes) separated by
// spaces, so nothing is lost in transcription.  It holds no expectations: those are in the specification.
#include "voikko.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <map>
#include <fstream>
#include <dirent.h>
#include <unistd.h>
#include <pthread.h>
#include <stdint.h>

#include <pwd.h>
#include <errno.h>

// The home directory of the user, as the library learns it, is an input as well.
extern "C" int getpwuid_r(uid_t uid, struct passwd * pwd, char * buf, size_t buflen, struct passwd ** result) {
	const char * home = getenv("VERIF_HOME");
	if (!home) home = "/nonexistent";
	*result = 0;
	if (strlen(home) + 8 > buflen) return ERANGE;
	memset(pwd, 0, sizeof(*pwd));
	strcpy(buf, home);
	pwd->pw_uid = uid; pwd->pw_dir = buf;
	pwd->pw_name = pwd->pw_passwd = pwd->pw_gecos = pwd->pw_shell = (char *) "";
	*result = pwd;
	return 0;
}
extern "C" struct passwd * getpwuid(uid_t uid) {
	static struct passwd p, * r; static char b[4096];
	getpwuid_r(uid, &p, b, sizeof b, &r);
	return r;
}

using namespace std;
typedef vector<string> Args;
static const int MAXH = 64;
static VoikkoHandle * H[MAXH]; // read and written without ordering, to leave the thread sanitizer to judge the library
static VoikkoHandle * getH(long i) { return __atomic_load_n(&H[i], __ATOMIC_RELAXED); }
static void setH(long i, VoikkoHandle * h) { __atomic_store_n(&H[i], h, __ATOMIC_RELAXED); }
static bool lastOld;

static Args split(const string & s, char sep) {
	Args r; size_t p = 0;
	while (true) {
		size_t q = s.find(sep, p);
		if (q == string::npos) { r.push_back(s.substr(p)); return r; }
		r.push_back(s.substr(p, q - p)); p = q + 1;
	}
}
static vector<long> nums(const string & s) {
	vector<long> r; const char * p = s.c_str();
	while (*p) { while (*p == ' ') p++; if (!*p) break; char * e; r.push_back(strtol(p, &e, 10)); p = e; }
	return r;
}
// exactly sized heap buffers, so that a sanitizer sees any access outside of them
struct W {
	vector<long> n; wchar_t * p; size_t len;
	W(const string & s, const string & mode) : n(nums(s)) {
		// mode: z = terminated, x = no terminator at all, g = followed by letters and a terminator
		size_t l = n.size(); len = l;
		size_t extra = mode == "x" ? 0 : mode == "g" ? 4 : 1;
		p = (wchar_t *) malloc((l + extra) * sizeof(wchar_t) + (l + extra == 0 ? 1 : 0));
		for (size_t i = 0; i < l; i++) p[i] = (wchar_t) n[i];
		if (mode == "g") { p[l] = L'q'; p[l+1] = L'z'; p[l+2] = L'@'; p[l+3] = 0; }
		else if (extra) p[l] = 0;
	}
	~W() { free(p); }
};
struct B {
	vector<long> n; char * p; size_t len;
	B(const string & s, const string & mode) : n(nums(s)) {
		size_t l = n.size(); len = l;
		size_t extra = mode == "x" ? 0 : mode == "g" ? 4 : 1;
		p = (char *) malloc(l + extra + (l + extra == 0 ? 1 : 0));
		for (size_t i = 0; i < l; i++) p[i] = (char) n[i];
		if (mode == "g") { p[l] = 'q'; p[l+1] = 'z'; p[l+2] = '@'; p[l+3] = 0; }
		else if (extra) p[l] = 0;
	}
	~B() { free(p); }
};
static string jw(const wchar_t * s) {
	if (!s) return "null";
	string r = "["; for (size_t i = 0; s[i]; i++) { if (i) r += ","; r += to_string((long)(int32_t) s[i]); } return r + "]";
}
static string jb(const char * s) {
	if (!s) return "null";
	string r = "["; for (size_t i = 0; s[i]; i++) { if (i) r += ","; r += to_string((unsigned)(unsigned char) s[i]); } return r + "]";
}
static string js(const char * s) {
	if (!s) return "null";
	string r = "\""; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
static string jbArr(char ** a) {
	if (!a) return "null";
	string r = "["; for (size_t i = 0; a[i]; i++) { if (i) r += ","; r += jb(a[i]); } return r + "]";
}
static string jsArr(char ** a) {
	if (!a) return "null";
	string r = "["; for (size_t i = 0; a[i]; i++) { if (i) r += ","; r += js(a[i]); } return r + "]";
}
static string jerr(VoikkoGrammarError * e) {
	if (!e) return "null";
	string r = "{\"code\":" + to_string(voikkoGetGrammarErrorCode(e)) + ",\"pos\":" + to_string(voikkoGetGrammarErrorStartPos(e))
		+ ",\"len\":" + to_string(voikkoGetGrammarErrorLength(e)) + ",\"sugg\":";
	const char ** s = voikkoGetGrammarErrorSuggestions(e);
	r += s ? jbArr((char **) s) : string("[]");
	r += "}";
	voikkoFreeGrammarError(e);
	return r;
}
static string janalyses(voikko_mor_analysis ** l, bool cstr) {
	if (!l) return "null";
	string r = "[";
	for (size_t i = 0; l[i]; i++) {
		if (i) r += ",";
		r += "{";
		const char ** k = voikko_mor_analysis_keys(l[i]);
		for (size_t j = 0; k[j]; j++) {
			if (j) r += ",";
			r += js(k[j]) + ":";
			if (cstr) { char * v = voikko_mor_analysis_value_cstr(l[i], k[j]); r += jb(v); voikko_free_mor_analysis_value_cstr(v); }
			else r += jw(voikko_mor_analysis_value_ucs4(l[i], k[j]));
		}
		r += "}";
	}
	voikko_free_mor_analysis(l);
	return r + "]";
}
static string jlangs(char ** l) { string r = jbArr(l); if (l) voikkoFreeCstrArray(l); return r; }

static int openFiles() { int n = 0; DIR * d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static int filesAtStart = openFiles();

static string run(const Args & a) {
	const string & op = a[0];
	auto I = [&](size_t i) { return i < a.size() ? atol(a[i].c_str()) : 0L; };
	auto S = [&](size_t i) { return i < a.size() ? a[i] : string(); };
	VoikkoHandle * h = (a.size() > 1 && I(1) >= 0 && I(1) < MAXH) ? getH(I(1)) : 0;
	if (op == "init") { // h lang path("-" = null)
		const char * err = 0;
		string lang = S(2), path = S(3);
		h = voikkoInit(&err, lang == "-" ? 0 : lang.c_str(), path == "-" ? 0 : path.c_str());
		setH(I(1), h);
		return "{\"ok\":" + string(h ? "1" : "0") + ",\"err\":" + (err ? js(err) : "\"\"") + "}";
	}
	if (op == "term") { voikkoTerminate(h); setH(I(1), 0); return "1"; }
	if (op == "termq") { if (h) voikkoTerminate(h); setH(I(1), 0); return "1"; }
	if (op == "who") { if (!h) return "null"; string r = "[";
		for (size_t i = 2; i < a.size(); i++) { W w(S(i), "z"); if (i > 2) r += ","; r += to_string(voikkoSpellUcs4(h, w.p)); } return r + "]"; }
	if (op == "poke") { // h kinds words... : calls whose answers are not looked at
		if (!h) return "null";
		for (size_t i = 3; i < a.size(); i++) { W w(S(i), "z"); for (char k : S(2)) switch (k) {
			case 's': voikkoSpellUcs4(h, w.p); break;
			case 'g': { wchar_t ** x = voikkoSuggestUcs4(h, w.p); if (x) voikko_free_suggest_ucs4(x); break; }
			case 'a': { voikko_mor_analysis ** x = voikkoAnalyzeWordUcs4(h, w.p); if (x) voikko_free_mor_analysis(x); break; }
			case 'h': { char * x = voikkoHyphenateUcs4(h, w.p); if (x) voikkoFreeCstr(x); break; }
			case 'r': { VoikkoGrammarError * x = voikkoNextGrammarErrorUcs4(h, w.p, w.len, 0, 0); if (x) voikkoFreeGrammarError(x); break; } } }
		return "1"; }
	if (op == "res") { int m = 0; std::ifstream f("/proc/self/maps"); string l; while (std::getline(f, l)) if (l.find(".vfst") != string::npos) m++;
		f.close(); return "{\"maps\":" + to_string(m) + ",\"fds\":" + to_string(openFiles() - filesAtStart) + "}"; }
	if (op == "setb") return to_string(voikkoSetBooleanOption(h, I(2), I(3)));
	if (op == "seti") return to_string(voikkoSetIntegerOption(h, I(2), I(3)));
	if (op == "spellU") { W w(S(2), "z"); return to_string(voikkoSpellUcs4(h, w.p)); }
	if (op == "spellC") { B w(S(2), "z"); return to_string(voikkoSpellCstr(h, w.p)); }
	if (op == "suggU") { W w(S(2), "z"); wchar_t ** s = voikkoSuggestUcs4(h, w.p); if (!s) return "null";
		string r = "["; for (size_t i = 0; s[i]; i++) { if (i) r += ","; r += jw(s[i]); } voikko_free_suggest_ucs4(s); return r + "]"; }
	if (op == "suggC") { B w(S(2), "z"); char ** s = voikkoSuggestCstr(h, w.p); string r = jbArr(s); if (s) voikkoFreeCstrArray(s); return r; }
	if (op == "hyphU") { W w(S(2), "z"); char * s = voikkoHyphenateUcs4(h, w.p); string r = jb(s); if (s) voikkoFreeCstr(s); return r; }
	if (op == "hyphC") { B w(S(2), "z"); char * s = voikkoHyphenateCstr(h, w.p); string r = jb(s); if (s) voikkoFreeCstr(s); return r; }
	if (op == "insh") { B w(S(2), "z"), hy(S(3), "z"); char * s = voikkoInsertHyphensCstr(h, w.p, hy.p, I(4)); string r = jb(s); if (s) voikkoFreeCstr(s); return r; }
	if (op == "tokU" || op == "tokC") { // h mode text : the whole text
		string r = "["; bool first = true; string mode = S(2);
		if (op == "tokU") {
			W w(S(3), mode); size_t pos = 0, steps = 0;
			while (true) { size_t l = 999999; int t = voikkoNextTokenUcs4(h, w.p + pos, w.len - pos, &l);
				if (!first) r += ","; first = false; r += "[" + to_string(t) + "," + to_string(l) + "]";
				if (t == 0 || l == 0 || l > w.len - pos || ++steps > w.len + 2) break;
				pos += l; }
		} else { // byte positions advance by the UTF-8 length of the token
			B w(S(3), mode); size_t pos = 0, steps = 0;
			while (true) { size_t l = 999999; int t = voikkoNextTokenCstr(h, w.p + pos, w.len - pos, &l);
				if (!first) r += ","; first = false; r += "[" + to_string(t) + "," + to_string(l) + "]";
				if (t == 0 || l == 0 || ++steps > w.len + 2) break;
				size_t q = pos; for (size_t k = 0; k < l && q < w.len; k++) { q++; while (q < w.len && ((unsigned char) w.p[q] & 0xC0) == 0x80) q++; }
				pos = q; if (pos > w.len) break; }
		}
		return r + "]";
	}
	if (op == "tok1U") { W w(S(3), S(2)); size_t l = 999999; int t = voikkoNextTokenUcs4(h, w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "tok1C") { B w(S(3), S(2)); size_t l = 999999; int t = voikkoNextTokenCstr(h, w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "sentU" || op == "sentC") {
		string r = "["; bool first = true; string mode = S(2);
		if (op == "sentU") {
			W w(S(3), mode); size_t pos = 0, steps = 0;
			while (true) { size_t l = 999999; int t = voikkoNextSentenceStartUcs4(h, w.p + pos, w.len - pos, &l);
				if (!first) r += ","; first = false; r += "[" + to_string(t) + "," + to_string(l) + "]";
				if (t == 0 || l == 0 || l > w.len - pos || ++steps > w.len + 2) break;
				pos += l; }
		} else {
			B w(S(3), mode); size_t pos = 0, steps = 0;
			while (true) { size_t l = 999999; int t = voikkoNextSentenceStartCstr(h, w.p + pos, w.len - pos, &l);
				if (!first) r += ","; first = false; r += "[" + to_string(t) + "," + to_string(l) + "]";
				if (t == 0 || l == 0 || ++steps > w.len + 2) break;
				size_t q = pos; for (size_t k = 0; k < l && q < w.len; k++) { q++; while (q < w.len && ((unsigned char) w.p[q] & 0xC0) == 0x80) q++; }
				pos = q; if (pos > w.len) break; }
		}
		return r + "]";
	}
	if (op == "sent1U") { W w(S(3), S(2)); size_t l = 999999; int t = voikkoNextSentenceStartUcs4(h, w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "sent1C") { B w(S(3), S(2)); size_t l = 999999; int t = voikkoNextSentenceStartCstr(h, w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "gramU") { W w(S(3), S(2)); return jerr(voikkoNextGrammarErrorUcs4(h, w.p, w.len, I(4), I(5))); }
	if (op == "gramC") { B w(S(3), S(2)); return jerr(voikkoNextGrammarErrorCstr(h, w.p, w.len, I(4), I(5))); }
	if (op == "gramUL") { W w(S(3), S(2)); size_t l = I(4); return jerr(voikkoNextGrammarErrorUcs4(h, w.p, l < w.len ? l : w.len, I(5), I(6))); }
	if (op == "gramAllU" || op == "gramAllC") {
		string r = "["; W w(S(3), op == "gramAllU" ? S(2) : string("z")); B b(S(3), op == "gramAllC" ? S(2) : string("z"));
		for (int skip = 0; skip < 3000; skip++) {
			string e = op == "gramAllU" ? jerr(voikkoNextGrammarErrorUcs4(h, w.p, w.len, I(4), skip))
				: jerr(voikkoNextGrammarErrorCstr(h, b.p, b.len, I(4), skip));
			if (e == "null") break;
			if (skip) r += ",";
			r += e;
		}
		return r + "]";
	}
	if (op == "anaU") { W w(S(2), "z"); return janalyses(voikkoAnalyzeWordUcs4(h, w.p), false); }
	if (op == "anaC") { B w(S(2), "z"); return janalyses(voikkoAnalyzeWordCstr(h, w.p), true); }
	if (op == "attr") { char ** s = voikkoGetAttributeValues(h, S(2).c_str()); string r = jsArr(s); if (s) voikkoFreeCstrArray(s); return r; }
	if (op == "listd") {
		voikko_dict ** d = voikko_list_dicts(S(1) == "-" ? 0 : S(1).c_str());
		string r = "[";
		for (size_t i = 0; d[i]; i++) {
			if (i) r += ",";
			r += "{\"lang\":" + jb(voikko_dict_language(d[i])) + ",\"script\":" + jb(voikko_dict_script(d[i]))
				+ ",\"variant\":" + jb(voikko_dict_variant(d[i])) + ",\"desc\":" + jb(voikko_dict_description(d[i])) + "}";
		}
		voikko_free_dicts(d);
		return r + "]";
	}
	if (op == "caps") {
		const char * p = S(1) == "-" ? 0 : S(1).c_str(); string ps = S(1); p = ps == "-" ? 0 : ps.c_str();
		return "{\"spell\":" + jlangs(voikkoListSupportedSpellingLanguages(p)) + ",\"hyphen\":" + jlangs(voikkoListSupportedHyphenationLanguages(p))
			+ ",\"grammar\":" + jlangs(voikkoListSupportedGrammarCheckingLanguages(p)) + "}";
	}
	if (op == "setenv") { if (S(2) == "-") unsetenv(S(1).c_str()); else setenv(S(1).c_str(), S(2).c_str(), 1); return "1"; }
	if (op == "errmsg") { return js(voikko_error_message_cstr(I(1), S(2) == "-" ? 0 : S(2).c_str())); }
	if (op == "version") return js(voikkoGetVersion());
	// deprecated interface
	if (op == "dinit") { int hh = 77; string lang = S(1), path = S(3); const char * l = lang == "-" ? 0 : lang.c_str(); // path "-": the function without one
		lastOld = false;
		const char * e = path == "-" ? voikko_init(&hh, l, I(2)) : voikko_init_with_path(&hh, l, I(2), path.c_str());
		lastOld = !e && hh == 1;
		return "{\"h\":" + to_string(hh) + ",\"err\":" + (e ? js(e) : "\"\"") + "}"; }
	if (op == "dterm") return to_string(voikko_terminate(I(1)));
	if (op == "dsetb") return to_string(voikko_set_bool_option(I(1), I(2), I(3)));
	if (op == "dseti") return to_string(voikko_set_int_option(I(1), I(2), I(3)));
	if (op == "dsets") return to_string(voikko_set_string_option(I(1), I(2), S(3) == "-" ? 0 : S(3).c_str()));
	// whether there is such a handle (its termination would succeed) cannot be asked: the answer of the last dinit tells
	if (op == "dwho") { if (!lastOld) return "null"; W w(S(2), "z"); return to_string(voikko_spell_ucs4(I(1), w.p)); }
	if (op == "dspellU") { W w(S(2), "z"); return to_string(voikko_spell_ucs4(I(1), w.p)); }
	if (op == "dspellC") { B w(S(2), "z"); return to_string(voikko_spell_cstr(I(1), w.p)); }
	if (op == "dsuggC") { B w(S(2), "z"); char ** s = voikko_suggest_cstr(I(1), w.p); string r = jbArr(s); voikko_free_suggest_cstr(s); return r; }
	if (op == "dsuggU") { W w(S(2), "z"); wchar_t ** s = voikko_suggest_ucs4(I(1), w.p); if (!s) return "null";
		string r = "["; for (size_t i = 0; s[i]; i++) { if (i) r += ","; r += jw(s[i]); } voikko_free_suggest_ucs4(s); return r + "]"; }
	if (op == "dhyphC") { B w(S(2), "z"); char * s = voikko_hyphenate_cstr(I(1), w.p); string r = jb(s); if (s) voikko_free_hyphenate(s); return r; }
	if (op == "dhyphU") { W w(S(2), "z"); char * s = voikko_hyphenate_ucs4(I(1), w.p); string r = jb(s); if (s) voikko_free_hyphenate(s); return r; }
	if (op == "dgramC" || op == "dgramU") {
		W w(S(2), "z"); B b(S(2), "z");
		voikko_grammar_error e = op == "dgramC" ? voikko_next_grammar_error_cstr(I(1), b.p, b.len, I(3), I(4)) : voikko_next_grammar_error_ucs4(I(1), w.p, w.len, I(3), I(4));
		if (e.error_code == 0) { bool zero = e.startpos == 0 && e.errorlen == 0 && !e.suggestions; return zero ? "null" : "{\"code\":0}"; }
		string r = "{\"code\":" + to_string(e.error_code) + ",\"pos\":" + to_string(e.startpos) + ",\"len\":" + to_string(e.errorlen) + ",\"sugg\":" + (e.suggestions ? jbArr(e.suggestions) : string("[]")) + "}";
		voikko_free_suggest_cstr(e.suggestions);
		return r;
	}
	if (op == "dtokU") { W w(S(2), "z"); size_t l = 999999; int t = voikko_next_token_ucs4(I(1), w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "dtokC") { B w(S(2), "z"); size_t l = 999999; int t = voikko_next_token_cstr(I(1), w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "dsentU") { W w(S(2), "z"); size_t l = 999999; int t = voikko_next_sentence_start_ucs4(I(1), w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "dsentC") { B w(S(2), "z"); size_t l = 999999; int t = voikko_next_sentence_start_cstr(I(1), w.p, w.len, &l); return "[" + to_string(t) + "," + to_string(l) + "]"; }
	if (op == "danaU") { W w(S(2), "z"); return janalyses(voikko_analyze_word_ucs4(I(1), w.p), false); }
	if (op == "danaC") { B w(S(2), "z"); return janalyses(voikko_analyze_word_cstr(I(1), w.p), true); }
	if (op == "nop") return "1";
	fprintf(stderr, "unknown command %s\n", op.c_str());
	_exit(97);
}

// "par N": the following lines up to "endpar" carry a thread number first; each thread runs its own lines in order
struct Job { vector<Args> cmds; vector<string> out; };
static pthread_barrier_t bar;
static void * worker(void * p) { Job * j = (Job *) p; pthread_barrier_wait(&bar); for (auto & c : j->cmds) j->out.push_back(run(c)); return 0; }

int main() {
	ios::sync_with_stdio(false);
	string line;
	while (getline(cin, line)) {
		Args a = split(line, '\t');
		if (a[0] == "par") {
			int n = atoi(a[1].c_str());
			vector<Job> jobs(n); vector<pair<int, size_t>> order;
			while (getline(cin, line) && line != "endpar") {
				Args c = split(line, '\t'); int t = atoi(c[0].c_str());
				order.push_back(make_pair(t, jobs[t].cmds.size()));
				jobs[t].cmds.push_back(Args(c.begin() + 1, c.end()));
			}
			pthread_barrier_init(&bar, 0, n);
			vector<pthread_t> th(n);
			for (int i = 0; i < n; i++) pthread_create(&th[i], 0, worker, &jobs[i]);
			for (int i = 0; i < n; i++) pthread_join(th[i], 0);
			pthread_barrier_destroy(&bar);
			for (auto & o : order) cout << jobs[o.first].out[o.second] << "\n";
			cout << flush;
			continue;
		}
		string r = run(a);
		cout << r << "\n" << flush;
	}
	return 0;
}
