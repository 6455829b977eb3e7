// The library for a JavaScript interpreter without WebAssembly: starts `node driver.js ARGS...` (arguments of this program)
// with pipes as descriptors 3 and 4, and answers its requests (one line each: name and arguments, texts in hexadecimal).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include "voikko.h"

using namespace std;
typedef vector<string> Args;

static string fromHex(const string & s) {
	string r;
	for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(strtol(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}
static string hex(const char * s) {
	if (!s) return "null";
	string r = "x";
	char b[3];
	for (; *s; s++) { snprintf(b, 3, "%02x", (unsigned char) *s); r += b; }
	return r;
}
static string num(long n) { return to_string(n); }
static string strings(char ** a) {
	if (!a) return "null";
	string r = "array";
	for (char ** p = a; *p; p++) r += " " + hex(*p);
	return r;
}

static map<long, VoikkoHandle*> handles;
static map<long, VoikkoGrammarError*> errors;
static long last = 0;

static string answer(const Args & a) {
	const string & f = a[0];
	auto text = [&](size_t i) { return fromHex(a.at(i)); };
	auto n = [&](size_t i) { return atol(a.at(i).c_str()); };
	if (f == "voikkoInit") {
		const char * err = nullptr;
		VoikkoHandle * h = voikkoInit(&err, text(1).c_str(), a.at(2) == "null" ? nullptr : text(2).c_str());
		if (!h) return "0 " + hex(err);
		handles[++last] = h;
		return num(last) + " null";
	}
	if (f == "voikkoGetGrammarErrorCode") return num(voikkoGetGrammarErrorCode(errors.at(n(1))));
	if (f == "voikkoGetGrammarErrorStartPos") return num(voikkoGetGrammarErrorStartPos(errors.at(n(1))));
	if (f == "voikkoGetGrammarErrorLength") return num(voikkoGetGrammarErrorLength(errors.at(n(1))));
	if (f == "voikkoGetGrammarErrorSuggestions") return strings(const_cast<char **>(voikkoGetGrammarErrorSuggestions(errors.at(n(1)))));
	if (f == "voikkoGetGrammarErrorShortDescription") {
		char * s = voikkoGetGrammarErrorShortDescription(errors.at(n(1)), a.at(2) == "null" ? nullptr : text(2).c_str());
		string r = hex(s);
		voikkoFreeErrorMessageCstr(s);
		return r;
	}
	if (f == "voikkoFreeGrammarError") { voikkoFreeGrammarError(errors.at(n(1))); errors.erase(n(1)); return "0"; }
	VoikkoHandle * h = handles.at(n(1));
	if (f == "voikkoTerminate") { voikkoTerminate(h); handles.erase(n(1)); return "0"; }
	if (f == "voikkoSetBooleanOption") return num(voikkoSetBooleanOption(h, n(2), n(3)));
	if (f == "voikkoSetIntegerOption") return num(voikkoSetIntegerOption(h, n(2), n(3)));
	if (f == "voikkoSpellCstr") return num(voikkoSpellCstr(h, text(2).c_str()));
	if (f == "voikkoSuggestCstr") {
		char ** s = voikkoSuggestCstr(h, text(2).c_str());
		string r = strings(s);
		if (s) voikkoFreeCstrArray(s);
		return r;
	}
	if (f == "voikkoGetAttributeValues") {
		char ** s = voikkoGetAttributeValues(h, text(2).c_str());
		string r = strings(s);
		if (s) voikkoFreeCstrArray(s);
		return r;
	}
	if (f == "voikkoHyphenateCstr") { char * s = voikkoHyphenateCstr(h, text(2).c_str()); string r = hex(s); if (s) voikkoFreeCstr(s); return r; }
	if (f == "voikkoInsertHyphensCstr") {
		char * s = voikkoInsertHyphensCstr(h, text(2).c_str(), text(3).c_str(), n(4));
		string r = hex(s);
		if (s) voikkoFreeCstr(s);
		return r;
	}
	if (f == "voikkoNextTokenCstr" || f == "voikkoNextSentenceStartCstr") {
		string t = text(2);
		// (the memory of the caller and no more)
		char * b = new char[t.size()];
		memcpy(b, t.data(), t.size());
		size_t len = 0;
		long type = f == "voikkoNextTokenCstr" ? long(voikkoNextTokenCstr(h, b, n(3), &len)) : long(voikkoNextSentenceStartCstr(h, b, n(3), &len));
		delete[] b;
		return num(type) + " " + num(len);
	}
	if (f == "voikkoNextGrammarErrorCstr") {
		VoikkoGrammarError * e = voikkoNextGrammarErrorCstr(h, text(2).c_str(), n(3), n(4), n(5));
		if (!e) return "0";
		errors[++last] = e;
		return num(last);
	}
	if (f == "voikkoAnalyzeWordCstr") {
		voikko_mor_analysis ** l = voikkoAnalyzeWordCstr(h, text(2).c_str());
		if (!l) return "null";
		string r = "list";
		for (voikko_mor_analysis ** p = l; *p; p++) {
			r += " analysis";
			for (const char ** k = voikko_mor_analysis_keys(*p); *k; k++) {
				char * v = voikko_mor_analysis_value_cstr(*p, *k);
				r += " " + hex(*k) + " " + hex(v);
				voikko_free_mor_analysis_value_cstr(v);
			}
		}
		voikko_free_mor_analysis(l);
		return r;
	}
	fprintf(stderr, "bridge: unknown function %s\n", f.c_str());
	exit(97);
}

int main(int argc, char ** argv) {
	int to[2], from[2];
	if (pipe(to) || pipe(from)) return 97;
	pid_t pid = fork();
	if (pid == 0) {
		// (moved away first: the pipes may themselves be 3 and 4)
		int r = dup(to[0]), w = dup(from[1]), r2 = dup(r), w2 = dup(w);
		(void) r; (void) w;
		dup2(r2, 103); dup2(w2, 104);
		for (int i = 3; i < 60; i++) close(i);
		dup2(103, 3); dup2(104, 4);
		close(103); close(104);
		unsetenv("LD_PRELOAD");
		vector<char *> v;
		char node[] = "node";
		v.push_back(node);
		for (int i = 1; i < argc; i++) v.push_back(argv[i]);
		v.push_back(nullptr);
		execvp("node", v.data());
		_exit(97);
	}
	close(to[0]);
	close(from[1]);
	FILE * in = fdopen(from[0], "r"), * out = fdopen(to[1], "w");
	char * line = nullptr;
	size_t cap = 0;
	ssize_t n;
	while ((n = getline(&line, &cap, in)) > 0) {
		line[n - 1] = 0;
		Args a;
		for (char * p = line; ; ) {
			char * e = strchr(p, ' ');
			a.push_back(e ? string(p, e) : string(p));
			if (!e) break;
			p = e + 1;
		}
		string r = answer(a);
		fprintf(out, "%s\n", r.c_str());
		fflush(out);
	}
	free(line);
	fclose(in);
	fclose(out);
	int st = 0;
	waitpid(pid, &st, 0);
	int code = WIFEXITED(st) ? WEXITSTATUS(st) : 98;
	if (code == 0 && (!errors.empty())) { fprintf(stderr, "bridge: %zu grammar errors were not released\n", errors.size()); code = 96; }
	for (auto & e : errors) voikkoFreeGrammarError(e.second);
	for (auto & x : handles) voikkoTerminate(x.second);
	return code;
}
