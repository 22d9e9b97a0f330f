/* Deterministic simulator for OpenNARS-for-Applications.
 *
 * One process = one simulated execution, fully determined by the plan file given as argv[1].
 * The real, unmodified sources of /repo/src are linked in; every source of nondeterminism they use is replaced:
 *   threads, mutexes, condition variables -> coroutines driven by a seeded scheduler (preemption at every
 *                                            seam call and, in the instrumented build, at function entries)
 *   sleeping and time                     -> a simulated clock
 *   UDP sockets                           -> a simulated network with faults
 *   standard input / output               -> simulated streams (chunking, end of input, captured output)
 *   random numbers                        -> seeded through the system's own mysrand
 *   process exit and crashes              -> recorded
 * The recorded history is written to stdout; markers start with \001.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <time.h>
#include <math.h>
#include <stdint.h>
#undef assert
#include "Shell.h"
#include "NAL.h"
#include "Decision.h"
#include "Cycle.h"
#include "Stats.h"
#include "InvertedAtomIndex.h"
#include "NetworkNAR/UDPNAR.h"
#undef assert
#define NOINSTR __attribute__((no_instrument_function))


/* ------------------------------------------------------------------ history */
static char *hist; static size_t hist_n, hist_cap;
static size_t hist_limit = 64u<<20;
NOINSTR static void hist_flush(void)
{
    size_t o = 0;
    while(o < hist_n) { ssize_t w = write(1, hist+o, hist_n-o); if(w <= 0) break; o += (size_t) w; }
    hist_n = 0;
}
NOINSTR static void finish(int code) { hist_flush(); _exit(code); }
NOINSTR static void hist_raw(const char *b, size_t n)
{
    static size_t total;
    total += n;
    if(total > hist_limit) { const char *m = "\n\001OUTPUTLIMIT\n"; hist_flush(); if(write(1, m, strlen(m))) {} _exit(0); }
    if(hist_n + n > hist_cap) { hist_flush(); }
    if(n > hist_cap) { if(write(1, b, n)) {} return; }
    memcpy(hist+hist_n, b, n); hist_n += n;
}
static FILE *simout; static int in_out;
static int last_nl = 1;
/* markers always start on a fresh line, prefixed with \001; output bytes are passed through */
NOINSTR static void mark(const char *fmt, ...)
{
    static char buf[16384]; va_list ap;
    if(simout && !in_out) fflush(simout);
    va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if(n >= (int) sizeof buf) n = sizeof buf - 1;
    if(!last_nl) { hist_raw("\n\001~\n", 4); } /* \001~ : the output line was not finished */
    hist_raw("\001", 1); hist_raw(buf, n); hist_raw("\n", 1); last_nl = 1;
}

/* ------------------------------------------------------------------ plan */
typedef struct { char *cmd; char *arg; } Item_;
static Item_ *plan; static int plan_n, plan_i;
static long P(const char *name, long dflt) /* global parameter "name value" */
{
    for(int i=0; i<plan_n; i++) if(!strcmp(plan[i].cmd, name)) return atol(plan[i].arg);
    return dflt;
}
static const char *PS(const char *name, const char *dflt)
{
    for(int i=0; i<plan_n; i++) if(!strcmp(plan[i].cmd, name)) return plan[i].arg;
    return dflt;
}
static void plan_load(const char *path)
{
    FILE *f = fopen(path, "rb"); if(!f) { perror(path); _exit(3); }
    char *line = NULL; size_t cap = 0; ssize_t n; int pc = 0;
    while((n = getline(&line, &cap, f)) >= 0)
    {
        while(n > 0 && line[n-1] == '\n') line[--n] = 0;
        if(n == 0 || line[0] == '#') continue;
        if(plan_n == pc) { pc = pc ? pc*2 : 256; plan = realloc(plan, pc*sizeof *plan); }
        char *sp = strchr(line, ' ');
        plan[plan_n].cmd = sp ? strndup(line, sp-line) : strdup(line);
        plan[plan_n].arg = strdup(sp ? sp+1 : "");
        plan_n++;
    }
    free(line); fclose(f);
}
NOINSTR static int unhex(const char *s, unsigned char *out, int max)
{
    int n = 0; unsigned v;
    while(n < max && s[0] && s[1] && sscanf(s, "%2x", &v) == 1) { out[n++] = v; s += 2; }
    return n;
}

/* ------------------------------------------------------------------ prng for the simulator itself */
static uint64_t rs = 88172645463325252ull;
NOINSTR static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
NOINSTR static long rndn(long n) { return n <= 0 ? 0 : (long)(rnd() % (uint64_t) n); }
/* faults draw from a stream of their own, so that replacing the seeded schedule by an explicit one keeps them */
static uint64_t fs = 88172645463325252ull;
NOINSTR static long frnd(long n) { fs ^= fs << 13; fs ^= fs >> 7; fs ^= fs << 17; return n <= 0 ? 0 : (long)(fs % (uint64_t) n); }

/* ------------------------------------------------------------------ state snapshots */
static char *term_str(Term *t)
{
    static char ring[8][4096]; static int k; char *b = ring[k++ & 7];
    FILE *save = stdout; FILE *m = fmemopen(b, 4095, "w");
    stdout = m; Narsese_PrintTerm(t); fflush(m); stdout = save;
    long n = ftell(m); fclose(m); b[n < 4095 ? n : 4095] = 0;
    return b;
}
static char *sb; static size_t sb_n, sb_cap;
static void S(const char *fmt, ...)
{
    va_list ap;
    for(;;)
    {
        va_start(ap, fmt); int n = vsnprintf(sb ? sb+sb_n : NULL, sb ? sb_cap-sb_n : 0, fmt, ap); va_end(ap);
        if(sb && sb_n + n + 1 < sb_cap) { sb_n += n; return; }
        sb_cap = (sb_cap ? sb_cap*2 : 1<<16) + n; sb = realloc(sb, sb_cap);
    }
}
static void S_str(const char *s)
{
    S("\"");
    for(; *s; s++) { unsigned char c = *s; if(c == '"' || c == '\\') S("\\%c", c); else if(c < 32 || c > 126) S("\\u%04x", c); else S("%c", c); }
    S("\"");
}
static void S_d(double d) { if(isnan(d)) S("NaN"); else if(isinf(d)) S(d > 0 ? "Infinity" : "-Infinity"); else S("%.17g", d); }
static void S_stamp(Stamp *s)
{
    S("["); for(int i=0; i<STAMP_SIZE && s->evidentialBase[i]; i++) S("%s%ld", i ? "," : "", s->evidentialBase[i]); S("]");
}
static void S_event(Event *e)
{
    if(e->type == EVENT_TYPE_DELETED) { S("null"); return; }
    S("{\"term\":"); S_str(term_str(&e->term)); S(",\"type\":%d,\"f\":", e->type); S_d(e->truth.frequency); S(",\"c\":"); S_d(e->truth.confidence);
    S(",\"st\":"); S_stamp(&e->stamp); S(",\"ot\":%ld,\"dt\":", e->occurrenceTime); S_d(e->occurrenceTimeOffset); S(",\"ct\":%ld,\"pr\":%d}", e->creationTime, e->processed);
}
/* the storage behind a queue, taken from the queue itself right after initialisation */
static char *queue_base(PriorityQueue *q, int n) { char *b = NULL; for(int i=0; i<n; i++) { char *p = q->items[i].address; if(p && (!b || p < b)) b = p; } return b; }
static Concept *concept_storage; static Event *cycling_belief_event_storage;
static void find_storage(void) { concept_storage = (Concept*) queue_base(&concepts, CONCEPTS_MAX); cycling_belief_event_storage = (Event*) queue_base(&cycling_belief_events, CYCLING_BELIEF_EVENTS_MAX); }
static int is_concept_slot(void *p) { return (char*) p >= (char*) concept_storage && (char*) p < (char*) (concept_storage+CONCEPTS_MAX) && ((char*) p - (char*) concept_storage) % sizeof(Concept) == 0; }
static int slot_of(void *c) { return is_concept_slot(c) ? (int) ((Concept*) c - concept_storage) : -1; }
static void S_imp(Implication *imp)
{
    Concept *src = imp->sourceConcept; int ok = is_concept_slot(src);
    S("{\"term\":"); S_str(term_str(&imp->term)); S(",\"f\":"); S_d(imp->truth.frequency); S(",\"c\":"); S_d(imp->truth.confidence);
    S(",\"st\":"); S_stamp(&imp->stamp); S(",\"dt\":"); S_d(imp->occurrenceTimeOffset); S(",\"ct\":%ld", imp->creationTime);
    S(",\"sid\":%ld,\"valid\":%d,\"src\":", imp->sourceConceptId, ok && src->id == imp->sourceConceptId); S_str(ok ? term_str(&src->term) : "?"); S("}");
}
static void S_queue(PriorityQueue *q)
{
    S("["); for(int i=0; i<q->itemsAmount; i++) { S("%s{\"p\":", i ? "," : ""); S_d(q->items[i].priority); S(",\"e\":"); S_event(q->items[i].address); S("}"); } S("]");
}
static int op_used(int o) { if(operations[o].term.atoms[0] || operations[o].stdinOutput) return 1; for(int a=0; a<OPERATIONS_BABBLE_ARGS_MAX; a++) if(operations[o].arguments[a].atoms[0]) return 1; return 0; }
/* what: 0 = light (no tables), 1 = full, 2 = digest-only full (no queue positions) */
static void state_text(int what)
{
    sb_n = 0;
    S("{\"t\":%ld,\"base\":%ld,\"cid\":%d,\"thr\":", currentTime, base, concept_id); S_d(conceptPriorityThreshold);
    S(",\"cfg\":{\"dthr\":"); S_d(DECISION_THRESHOLD); S(",\"babble\":"); S_d(MOTOR_BABBLING_CHANCE); S(",\"bops\":%d,\"ac\":", BABBLING_OPS); S_d(ANTICIPATION_CONFIDENCE);
    S(",\"sim\":"); S_d(Variable_similarity_distance); S(",\"rcc\":%d,\"pd\":%d,\"vol\":", RESTRICTED_CONCEPT_CREATION, PRINT_DERIVATIONS); S_d(PRINT_EVENTS_PRIORITY_THRESHOLD);
    S(",\"qp\":"); S_d(QUESTION_PRIMING); S("}");
    if(what)
    {
        S(",\"vals\":{"); int any = 0;
        for(int a=1; a<=ATOMS_MAX && Narsese_atomNames[a-1][0]; a++) if(Narsese_hasAtomValue((Atom) a)) { if(any++) S(","); S_str(Narsese_atomNames[a-1]); S(":"); S_d(Narsese_getAtomValue((Atom) a)); }
        S("}");
    }
    S(",\"n\":%d,\"concepts\":[", concepts.itemsAmount);
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(i) S(",");
        S("{\"slot\":%d,\"id\":%ld,\"term\":", slot_of(c), c->id); S_str(term_str(&c->term));
        S(",\"pr\":"); S_d(c->priority); S(",\"us\":"); S_d(concepts.items[i].priority); S(",\"uc\":%ld,\"lu\":%ld,\"ls\":%ld", c->usage.useCount, c->usage.lastUsed, c->lastSelectionTime);
        if(what)
        {
            S(",\"b\":"); S_event(&c->belief); S(",\"bs\":"); S_event(&c->belief_spike); S(",\"pb\":"); S_event(&c->predicted_belief); S(",\"gs\":"); S_event(&c->goal_spike);
            S(",\"imps\":["); int first = 1;
            for(int o=0; o<=OPERATIONS_MAX; o++) { Table *t = &c->precondition_beliefs[o]; if(!t->itemsAmount) continue; S("%s[%d,[", first ? "" : ",", o); first = 0; for(int k=0; k<t->itemsAmount; k++) { if(k) S(","); S_imp(&t->array[k]); } S("]]"); }
            S("],\"links\":["); for(int k=0; k<c->implication_links.itemsAmount; k++) { if(k) S(","); S_imp(&c->implication_links.array[k]); } S("]");
        }
        S("}");
    }
    S("],\"bev\":"); S_queue(&cycling_belief_events);
    S(",\"gev\":["); for(int l=0, f=1; l<CYCLING_GOAL_EVENTS_LAYERS; l++) if(cycling_goal_events[l].itemsAmount) { S("%s[%d,", f ? "" : ",", l); f = 0; S_queue(&cycling_goal_events[l]); S("]"); } S("]");
    S(",\"ops\":["); for(int o=0, f=1; o<OPERATIONS_MAX; o++) if(op_used(o)) { S("%s{\"id\":%d,\"term\":", f ? "" : ",", o+1); f = 0; S_str(term_str(&operations[o].term)); S(",\"stdin\":%d,\"args\":[", operations[o].stdinOutput); for(int a=0, g=1; a<OPERATIONS_BABBLE_ARGS_MAX; a++) if(operations[o].arguments[a].atoms[0]) { S("%s[%d,", g ? "" : ",", a+1); g = 0; S_str(term_str(&operations[o].arguments[a])); S("]"); } S("]}"); } S("]");
    S(",\"oti\":[");
    for(int k=0; k<occurrenceTimeIndex.itemsAmount; k++) { Concept *c = OccurrenceTimeIndex_GetKthNewestElement(&occurrenceTimeIndex, k); S("%s%d", k ? "," : "", slot_of(c)); }
    S("]}");
}
static int in_hook;
static void emit_state(int what, const char *tag)
{
    int save = in_hook; in_hook = 1; state_text(what); in_hook = save;
    mark("%s", tag);
    hist_raw("\001S ", 3); hist_raw(sb, sb_n); hist_raw("\n", 1);
}
static uint64_t fnv(const char *b, size_t n) { uint64_t h = 1469598103934665603ull; for(size_t i=0; i<n; i++) { h ^= (unsigned char) b[i]; h *= 1099511628211ull; } return h; }

/* ------------------------------------------------------------------ structural invariants */
static int inv_reported;
#define INV(cond, ...) do { if(!(cond)) { if(inv_reported++ < 20) mark("INV " __VA_ARGS__); } } while(0)
static int cap_imported_stamps, cap_time_moved;
/* links (implications in tables) are revised without looking at overlap; what is derived from such a link inherits the repetition */
static int links_repeat, check_repeats;
static int less_eq(double a, double b) { return a <= b; }
static void check_heap(PriorityQueue *q, const char *name)
{
    INV(q->itemsAmount >= 0 && q->itemsAmount <= q->maxElements, "%s-bound holds %d of %d", name, q->itemsAmount, q->maxElements);
    double mn = INFINITY, mx = -INFINITY;
    for(int i=0; i<q->itemsAmount; i++)
    {
        double p = q->items[i].priority;
        INV(!isnan(p), "%s-nan priority", name);
        if(p < mn) mn = p; if(p > mx) mx = p;
    }
    if(q->itemsAmount)
    {
        INV(less_eq(q->items[0].priority, mn), "%s-min head is not the minimum", name);
    }
    for(int i=0; i<q->itemsAmount; i++) /* full min-max heap order */
    {
        int lev = 0; for(int n=i+1; n>1; n>>=1) lev++;
        for(int r=0; r<6; r++)
        {
            int ch = r < 2 ? 2*i+1+r : 4*i+3+(r-2);
            if(ch >= q->itemsAmount) continue;
            double a = q->items[i].priority, b = q->items[ch].priority;
            INV((lev & 1) ? b <= a : a <= b, "%s-order heap order broken", name);
        }
    }
}
static void check_slots(PriorityQueue *q, void *storage, size_t sz, int n, const char *name)
{
    static unsigned char seen[1<<17]; memset(seen, 0, n);
    for(int i=0; i<n; i++)
    {
        char *p = q->items[i].address; long d = p - (char*) storage;
        if(d < 0 || d % (long) sz || d / (long) sz >= n) { INV(0, "%s-slots foreign slot", name); return; }
        if(seen[d/sz]) { INV(0, "%s-slots a slot is held twice (another is lost)", name); return; }
        seen[d/sz] = 1;
    }
}
static void check_truth(Truth *t, const char *what, Term *term)
{
    INV(!(isnan(t->frequency) || t->frequency < 0 || t->frequency > 1), "truth frequency %g out of [0,1] in %s of %s", t->frequency, what, term_str(term));
    INV(!(isnan(t->confidence) || t->confidence < 0 || t->confidence >= 1), "truth confidence %g out of [0,1) in %s of %s", t->confidence, what, term_str(term));
}
static void check_stamp(Stamp *s, const char *what, Term *term, int may_be_empty, int may_repeat)
{
    int n = 0; while(n < STAMP_SIZE && s->evidentialBase[n]) n++;
    for(int i=n; i<STAMP_SIZE; i++) INV(!s->evidentialBase[i], "stamp gap in %s of %s", what, term_str(term));
    for(int i=0; i<n; i++)
    {
        for(int j=0; j<i; j++) if(may_repeat && s->evidentialBase[i] == s->evidentialBase[j]) { if(!links_repeat++) mark("REPEAT %s", term_str(term)); }
        if(!may_repeat && check_repeats && !links_repeat) for(int j=0; j<i; j++) INV(s->evidentialBase[i] != s->evidentialBase[j], "stamp evidence %ld counted twice in %s of %s", s->evidentialBase[i], what, term_str(term));
        if(!cap_imported_stamps) INV(s->evidentialBase[i] > 0 && s->evidentialBase[i] < base, "stamp evidence %ld never existed in %s of %s", s->evidentialBase[i], what, term_str(term));
    }
    if(!may_be_empty) INV(n > 0, "stamp empty in %s of %s", what, term_str(term));
}
static void check_event(Event *e, const char *what, int nostamp)
{
    if(e->type == EVENT_TYPE_DELETED) return;
    check_truth(&e->truth, what, &e->term);
    if(!nostamp) check_stamp(&e->stamp, what, &e->term, 0, 0);
}
static Concept *fresh_lookup(Term *t) { Term f = {0}; memcpy(f.atoms, t->atoms, sizeof f.atoms); return Memory_FindConceptByTerm(&f); }
/* level: 1 = cheap, 2 = everything */
static void check_invariants(int level, int mask)
{
    int save = inv_reported; check_repeats = mask & 4;
    if(mask & 1)
    {
        check_heap(&concepts, "concepts"); check_heap(&cycling_belief_events, "belief-events");
        INV(concepts.maxElements == CONCEPTS_MAX, "concepts-bound capacity changed");
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) check_heap(&cycling_goal_events[l], "goal-events");
        if(concepts.itemsAmount < 0 || concepts.itemsAmount > CONCEPTS_MAX) return;
        check_slots(&concepts, concept_storage, sizeof(Concept), CONCEPTS_MAX, "concepts");
        check_slots(&cycling_belief_events, cycling_belief_event_storage, sizeof(Event), CYCLING_BELIEF_EVENTS_MAX, "belief-events");
        long atoms_expected = 0;
        static unsigned char act[CONCEPTS_MAX]; memset(act, 0, sizeof act);
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address; act[slot_of(c)] = 1;
            Concept *found = fresh_lookup(&c->term);
            INV(found == c, "index-lookup concept %s %s", term_str(&c->term), found ? "is found as another one (duplicate)" : "cannot be found");
            INV(c->id >= 0 && c->id < concept_id, "concept-id id of %s was never issued", term_str(&c->term));
            if(level > 1) for(int j=0; j<i; j++) { Concept *d = concepts.items[j].address; INV(c->id != d->id, "concept-id %ld issued twice", c->id); INV(memcmp(c->term.atoms, d->term.atoms, sizeof c->term.atoms), "concept-dup %s twice", term_str(&c->term)); }
            for(int k=0; k<UNIFICATION_DEPTH; k++)
            {
                Atom a = c->term.atoms[k]; if(!a || !Narsese_IsSimpleAtom(a)) continue;
                int dup = 0; for(int m=0; m<k; m++) if(c->term.atoms[m] == a) dup = 1;
                if(dup) continue;
                atoms_expected++;
                int cnt = 0, guard = 0;
                for(ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a); e && guard <= UNIFICATION_DEPTH*CONCEPTS_MAX; e = e->next, guard++) if(e->c == c) cnt++;
                INV(cnt == 1, "atom-index concept %s is listed %d times under one of its atoms", term_str(&c->term), cnt);
            }
        }
        long used = 0, htused = 0;
        for(int i=0; i<HTconcepts.buckets; i++) { int g = 0; for(VMItem *it = HTconcepts.HT[i]; it && g <= CONCEPTS_MAX; it = it->next, g++) { htused++; if(is_concept_slot(it->value)) INV(act[slot_of(it->value)], "index-stale a forgotten concept is still listed"); else INV(0, "index-foreign"); } }
        INV(htused == concepts.itemsAmount, "index-count %ld entries for %d concepts", htused, concepts.itemsAmount);
        INV(htused + HTconcepts.VMStack.stackpointer == CONCEPTS_MAX, "index-leak %ld used + %d free != %d", htused, HTconcepts.VMStack.stackpointer, CONCEPTS_MAX);
        int hi = 0; for(int i=0; i<ATOMS_MAX; i++) if(invertedAtomIndex[i]) hi = i;
        for(int i=0; i<=hi; i++) { long g = 0; for(ConceptChainElement *e = invertedAtomIndex[i]; e && g <= UNIFICATION_DEPTH*CONCEPTS_MAX; e = e->next, g++) { used++; if(!is_concept_slot(e->c)) { INV(0, "atom-index foreign or freed element listed"); continue; } INV(act[slot_of(e->c)], "atom-index a forgotten concept is still listed"); } }
        INV(used == atoms_expected, "atom-index %ld elements for %ld concept atoms", used, atoms_expected);
        INV(used + conceptChainElementStack.stackpointer == UNIFICATION_DEPTH*CONCEPTS_MAX, "atom-index-leak %ld used + %d free", used, conceptChainElementStack.stackpointer);
        for(int k=0; k<occurrenceTimeIndex.itemsAmount; k++) INV(is_concept_slot(OccurrenceTimeIndex_GetKthNewestElement(&occurrenceTimeIndex, k)), "time-index foreign element");
    }
    if(mask & 6)
    {
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address;
            check_event(&c->belief, "belief", 0); check_event(&c->belief_spike, "event", 0); check_event(&c->predicted_belief, "prediction", 0); check_event(&c->goal_spike, "goal", 0);
            for(int o=0; o<=OPERATIONS_MAX+1; o++)
            {
                Table *t = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
                INV(t->itemsAmount >= 0 && t->itemsAmount <= TABLE_SIZE, "table-bound %d of %d", t->itemsAmount, TABLE_SIZE);
                if(t->itemsAmount < 0 || t->itemsAmount > TABLE_SIZE) continue;
                for(int k=0; k<t->itemsAmount; k++)
                {
                    Implication *imp = &t->array[k];
                    check_truth(&imp->truth, "implication", &imp->term); check_stamp(&imp->stamp, "implication", &imp->term, 1, 1); /* assumed failures carry no evidence */
                    INV(is_concept_slot(imp->sourceConcept), "table-source implication without source concept");
                    INV(!isnan(imp->occurrenceTimeOffset) && !isinf(imp->occurrenceTimeOffset), "table-dt offset of %s is not a number", term_str(&imp->term));
                    Term post = Term_ExtractSubterm(&imp->term, 2);
                    INV(!memcmp(post.atoms, c->term.atoms, sizeof post.atoms), "table-place %s stored at %s", term_str(&imp->term), term_str(&c->term));
                    if(o <= OPERATIONS_MAX)
                    {
                        Term pre = Term_ExtractSubterm(&imp->term, 1); int opi = 0;
                        if(Narsese_copulaEquals(pre.atoms[0], SEQUENCE)) { Term po = Term_ExtractSubterm(&pre, 2); if(Narsese_isOperation(&po)) opi = Memory_getOperationID(&po); }
                        if(!P("ops-renamed", 0)) INV(opi == o, "table-op %s stored under operation %d", term_str(&imp->term), o);
                    }
                    for(int m=0; m<k; m++) INV(memcmp(t->array[m].term.atoms, imp->term.atoms, sizeof imp->term.atoms), "table-dup %s twice", term_str(&imp->term));
                    if(k) INV(Truth_Expectation(t->array[k-1].truth) >= Truth_Expectation(imp->truth) - 1e-12, "table-rank %s ranked below a weaker one", term_str(&imp->term));
                }
            }
        }
        for(int i=0; i<cycling_belief_events.itemsAmount; i++) { Event *e = cycling_belief_events.items[i].address; check_event(e, "queued belief", 0); INV(e->type == EVENT_TYPE_BELIEF, "queue-type"); }
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) { Event *e = cycling_goal_events[l].items[i].address; check_event(e, "queued goal", 0); INV(e->type == EVENT_TYPE_GOAL, "queue-type"); }
    }
    if(inv_reported > save && inv_reported >= 20) { mark("INVSTOP"); finish(0); }
}

/* ------------------------------------------------------------------ simulated clock, coroutines, scheduler */
#define NCO 8
#define STK (1<<20)
enum { RUN, BLK_MUTEX, BLK_COND, BLK_SLEEP, BLK_RECV, BLK_JOIN, DONE };
typedef struct { ucontext_t ctx; char *stk; int state; long long wake; void *obj; void *(*fn)(void*); void *arg; int fdepth; int started; } Co;
static Co co[NCO]; static int nco, cur;
static long long now_ns;
static int in_sched, preempt_on;
static long sched_points, switches;
static long explicit_at[4096]; static int explicit_to[4096]; static int explicit_n, explicit_k, explicit_mode;
static long p_switch; /* one in p_switch seam points switches */
static long p_instr;
static uint64_t sched_hash = 1469598103934665603ull;
static void udp_recv_ready_check(void);
static long long net_next(void);
static void net_advance(void);
NOINSTR static int runnable(int i) { return co[i].started && co[i].state == RUN; }
NOINSTR static void wake_sleepers(void) { for(int i=0; i<nco; i++) if(co[i].state == BLK_SLEEP && co[i].wake <= now_ns) co[i].state = RUN; }
NOINSTR static void switch_to(int t)
{
    int me = cur; cur = t; switches++;
    sched_hash = (sched_hash ^ (uint64_t)(t+1)) * 1099511628211ull;
    swapcontext(&co[me].ctx, &co[t].ctx);
}
NOINSTR static void no_progress(void) { mark("DEADLOCK t=%lld states=%d,%d,%d", now_ns, co[0].state, co[1].state, nco > 2 ? co[2].state : -1); finish(0); }
static long long time_limit = 3600ll*1000000000ll;
NOINSTR static void pick_next(int voluntary_id)
{
    (void) voluntary_id;
    for(;;)
    {
        net_advance(); wake_sleepers(); udp_recv_ready_check();
        int r[NCO], n = 0;
        for(int i=0; i<nco; i++) { int j = (cur + 1 + i) % nco; if(runnable(j)) r[n++] = j; }
        if(n)
        {
            int k = 0;
            if(!explicit_mode) { k = n > 1 ? (int) rndn(n) : 0; if(k) mark("SP %ld %d", sched_points, r[k]); }
            else while(explicit_k < explicit_n && explicit_at[explicit_k] <= sched_points)
            {
                if(explicit_at[explicit_k] == sched_points) for(int q=0; q<n; q++) if(r[q] == explicit_to[explicit_k]) k = q;
                explicit_k++;
            }
            if(r[k] != cur) switch_to(r[k]);
            return;
        }
        long long nx = net_next();
        for(int i=0; i<nco; i++) if(co[i].state == BLK_SLEEP && (nx < 0 || co[i].wake < nx)) nx = co[i].wake;
        if(nx < 0) no_progress();
        if(nx > now_ns) now_ns = nx;
        if(now_ns > time_limit) { mark("TIMELIMIT"); finish(0); }
    }
}
/* a point at which the scheduler may preempt the running coroutine */
NOINSTR static void sched_point(long prob)
{
    if(nco < 2 || in_sched) return;
    sched_points++;
    int sw = 0;
    if(explicit_mode)
    {
        while(explicit_k < explicit_n && explicit_at[explicit_k] < sched_points) explicit_k++;
        if(explicit_k < explicit_n && explicit_at[explicit_k] == sched_points) { int t = explicit_to[explicit_k]; if(t < nco && t != cur && runnable(t)) { explicit_k++; switch_to(t); } }
        return;
    }
    if(prob > 0 && rndn(prob) == 0) sw = 1;
    if(!sw) return;
    in_sched = 1; net_advance(); wake_sleepers(); udp_recv_ready_check(); in_sched = 0;
    int r[NCO], n = 0;
    for(int i=0; i<nco; i++) if(i != cur && runnable(i)) r[n++] = i;
    if(n) { int t = r[rndn(n)]; mark("SP %ld %d", sched_points, t); switch_to(t); }
}
NOINSTR static void block(int st, void *obj, long long wake) { sched_points++; co[cur].state = st; co[cur].obj = obj; co[cur].wake = wake; pick_next(0); }
static void co_entry(int i)
{
    co[i].fn(co[i].arg);
    co[i].state = DONE;
    for(int k=0; k<nco; k++) if(co[k].state == BLK_JOIN && co[k].obj == &co[i]) co[k].state = RUN;
    sched_points++;
    pick_next(0);
    abort();
}
static int poison = 0xA5;
static int spawn(void *(*fn)(void*), void *arg)
{
    int i = nco++;
    co[i].stk = mmap(NULL, STK*8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    memset(co[i].stk + STK*8 - STK/2, poison, STK/2);
    co[i].fn = fn; co[i].arg = arg; co[i].state = RUN; co[i].started = 1;
    getcontext(&co[i].ctx); co[i].ctx.uc_stack.ss_sp = co[i].stk; co[i].ctx.uc_stack.ss_size = STK*8; co[i].ctx.uc_link = NULL;
    makecontext(&co[i].ctx, (void(*)(void)) co_entry, 1, i);
    return i;
}
/* overwrite the dead part of the current stack, as later calls of a real program would */
static int poison_lines; /* dead stack is overwritten before every line is processed */
__attribute__((noinline)) NOINSTR static void poison_stack(void) { volatile char b[65536]; for(size_t i=0; i<sizeof b; i++) b[i] = (char) poison; }

/* --- pthread seam --- */
typedef struct { int locked; int owner; } SimMutex; /* lives in a side table keyed by address */
static struct { void *a; int locked, owner; } mtx[64]; static int nmtx;
NOINSTR static int mfind(void *a) { for(int i=0; i<nmtx; i++) if(mtx[i].a == a) return i; mtx[nmtx].a = a; mtx[nmtx].locked = 0; return nmtx++; }
static long f_spurious, n_spurious; /* spurious condition variable wakeups: one in n */
int pthread_mutex_lock(pthread_mutex_t *m)
{
    int i = mfind(m);
    sched_point(p_switch);
    while(mtx[i].locked) block(BLK_MUTEX, m, 0);
    mtx[i].locked = 1; mtx[i].owner = cur;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    int i = mfind(m); sched_point(p_switch);
    if(mtx[i].locked) return EBUSY;
    mtx[i].locked = 1; mtx[i].owner = cur; return 0;
}
NOINSTR static void unlock_(void *m) { int i = mfind(m); mtx[i].locked = 0; for(int k=0; k<nco; k++) if(co[k].state == BLK_MUTEX && co[k].obj == m) co[k].state = RUN; }
int pthread_mutex_unlock(pthread_mutex_t *m) { unlock_(m); sched_point(p_switch); return 0; }
static void *cond_of[NCO];
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    unlock_(m);
    if(f_spurious && frnd(f_spurious) == 0) { n_spurious++; mark("FAULT spurious-wakeup"); sched_point(1); }
    else { cond_of[cur] = c; block(BLK_COND, c, 0); }
    int i = mfind(m);
    while(mtx[i].locked) block(BLK_MUTEX, m, 0);
    mtx[i].locked = 1; mtx[i].owner = cur;
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void) ts; return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) { for(int k=0; k<nco; k++) if(co[k].state == BLK_COND && co[k].obj == c) { co[k].state = RUN; break; } sched_point(p_switch); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { for(int k=0; k<nco; k++) if(co[k].state == BLK_COND && co[k].obj == c) co[k].state = RUN; sched_point(p_switch); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void*), void *arg) { (void) at; int i = spawn(fn, arg); *t = (pthread_t) i; mark("THREAD %d", i); sched_point(p_switch); return 0; }
int pthread_join(pthread_t t, void **r) { if(r) *r = NULL; int i = (int) t; sched_point(p_switch); while(co[i].state != DONE) block(BLK_JOIN, &co[i], 0); mark("JOINED %d t=%lld", i, now_ns); return 0; }
int pthread_detach(pthread_t t) { (void) t; return 0; }
pthread_t pthread_self(void) { return (pthread_t) cur; }

/* --- clock seam --- */
static long f_oversleep; static long n_oversleep;
static long long cycle_cost = 100000;
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    (void) rem;
    if(req->tv_nsec < 0 || req->tv_nsec > 999999999L || req->tv_sec < 0) { errno = EINVAL; mark("SLEEP co=%d invalid", cur); sched_point(p_switch); return -1; }
    long long d = (long long) req->tv_sec * 1000000000ll + req->tv_nsec;
    mark("SLEEP co=%d ns=%lld t=%lld", cur, d, now_ns);
    if(f_oversleep && frnd(f_oversleep) == 0) { n_oversleep++; mark("FAULT oversleep"); d += frnd(50000000); }
    if(nco < 2) { now_ns += d; return 0; }
    block(BLK_SLEEP, NULL, now_ns + d);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *req, struct timespec *rem) { (void) c; (void) fl; return nanosleep(req, rem); }
int usleep(useconds_t u) { struct timespec t = { u/1000000, (u%1000000)*1000L }; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }
time_t time(time_t *t) { time_t v = (time_t)(now_ns/1000000000ll) + P("wallclock", 1000000000); if(t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void) c; long long v = now_ns + P("wallclock", 1000000000)*1000000000ll; ts->tv_sec = v/1000000000ll; ts->tv_nsec = v%1000000000ll; return 0; }
int gettimeofday(struct timeval *tv, void *tz) { (void) tz; long long v = now_ns + P("wallclock", 1000000000)*1000000000ll; tv->tv_sec = v/1000000000ll; tv->tv_usec = (v%1000000000ll)/1000; return 0; }

/* --- network seam --- */
typedef struct { long long at; int len; unsigned char *b; int err; int id; } Dgram;
static Dgram dg[4096]; static int dg_n; static int rq[4096], rq_n, rq_max = 64; /* receive queue of datagram indexes */
static int rx_fd = -1, rx_shutdown, rx_closed, rx_bound; static int next_fd = 3;
static int mac_shutdown; /* shutdown does not wake a blocked receive, only close does */
static long n_sendto, n_sockets; static long f_socket_fail, f_sendto_fail, f_socket_zero;
static struct sockaddr_in rx_addr;
static long net_dropped; static char sock_closed[4096]; static long n_sock_closed;
NOINSTR static void net_advance(void)
{
    for(;;)
    {
        int best = -1;
        for(int i=0; i<dg_n; i++) if(dg[i].at >= 0 && dg[i].at <= now_ns && (best < 0 || dg[i].at < dg[best].at)) best = i;
        if(best < 0) return;
        dg[best].at = -1;
        if(rx_fd < 0 || rx_closed || !rx_bound) { net_dropped++; mark("NETDROP %d not-listening", dg[best].id); continue; }
        if(rq_n >= rq_max) { net_dropped++; mark("NETDROP %d queue-full", dg[best].id); continue; }
        rq[rq_n++] = best;
    }
}
NOINSTR static long long net_next(void) { long long b = -1; for(int i=0; i<dg_n; i++) if(dg[i].at >= 0 && (b < 0 || dg[i].at < b)) b = dg[i].at; return b; }
NOINSTR static int recv_wakes(void) { return rq_n > 0 || (rx_shutdown && !mac_shutdown) || rx_closed; }
NOINSTR static void udp_recv_ready_check(void) { for(int i=0; i<nco; i++) if(co[i].state == BLK_RECV && recv_wakes()) co[i].state = RUN; }
int socket(int d, int t, int p)
{
    (void) d; (void) t; (void) p; n_sockets++;
    if(f_socket_fail > 0) { f_socket_fail--; mark("FAULT socket-fails"); errno = EMFILE; return -1; }
    int fd = f_socket_zero ? 0 : next_fd++;
    if(f_socket_zero) { f_socket_zero--; mark("FAULT socket-returns-0"); }
    mark("SOCKET %d", fd);
    if(fd >= 0 && fd < 4096) sock_closed[fd] = 0;
    return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
    (void) n;
    if(P("bind-fails", 0)) { mark("FAULT bind-fails"); errno = EADDRINUSE; return -1; }
    rx_fd = fd; rx_bound = 1; memcpy(&rx_addr, a, sizeof rx_addr);
    mark("BIND fd=%d port=%d addr=%s", fd, ntohs(rx_addr.sin_port), inet_ntoa(rx_addr.sin_addr));
    return 0;
}
static int recv_calls;
static int recv_errs[256][2], recv_errs_n;
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl)
{
    (void) flags; (void) sa; (void) sl;
    recv_calls++;
    sched_point(p_switch);
    for(int i=0; i<recv_errs_n; i++) if(recv_errs[i][0] == recv_calls) { errno = recv_errs[i][1]; mark("FAULT recv-error %d", recv_errs[i][1]); now_ns += 1000; return -1; }
    if(fd < 0 || fd != rx_fd) { errno = EBADF; now_ns += 20000; if(recv_calls > 20000) { mark("RECVSPIN"); finish(0); } sched_point(1); return -1; }
    while(!recv_wakes()) { block(BLK_RECV, NULL, 0); }
    if(rq_n > 0 && !rx_closed)
    {
        int i = rq[0]; memmove(rq, rq+1, sizeof(int)*(--rq_n));
        size_t n = dg[i].len < (int) len ? (size_t) dg[i].len : len;
        memcpy(buf, dg[i].b, n);
        mark("RECV id=%d len=%d t=%lld", dg[i].id, dg[i].len, now_ns);
        return (ssize_t) n;
    }
    if(rx_closed) { errno = EBADF; now_ns += 1000; if(recv_calls > 20000) { mark("RECVSPIN"); finish(0); } sched_point(2); return -1; }
    now_ns += 1000; if(recv_calls > 20000) { mark("RECVSPIN"); finish(0); } sched_point(2);
    return 0;
}
ssize_t recv(int fd, void *buf, size_t len, int flags) { return recvfrom(fd, buf, len, flags, NULL, NULL); }
static void on_cycle(void);
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t al)
{
    (void) flags; (void) al;
    n_sendto++;
    const struct sockaddr_in *in = (const struct sockaddr_in*) a;
    static char last[200]; static long reps; char d[200];
    size_t sl = strnlen(buf, len < 60 ? len : 60);
    snprintf(d, sizeof d, "fd=%d len=%zu text=%.*s addr=%s:%d", fd, len, (int) sl, (const char*) buf, in ? inet_ntoa(in->sin_addr) : "-", in ? ntohs(in->sin_port) : 0);
    if(strcmp(d, last)) { snprintf(last, sizeof last, "%s", d); mark("SENDTO %s", d); reps = 0; }
    reps++;
    now_ns += cycle_cost;
    if(!in_hook) { in_hook = 1; on_cycle(); in_hook = 0; }
    sched_point(p_switch);
    if(fd < 0 || fd >= 4096 || sock_closed[fd]) { errno = EBADF; return -1; }
    if(f_sendto_fail && (f_sendto_fail == 1 || n_sendto % f_sendto_fail == 0)) { static int said; if(!said++) mark("FAULT sendto-fails"); static int es[] = { ECONNREFUSED, EAGAIN, ENOBUFS, EPERM, ENETUNREACH, EINTR, EMSGSIZE }; errno = es[n_sendto % 7]; return -1; }
    return (ssize_t) len;
}
ssize_t send(int fd, const void *b, size_t n, int f) { return sendto(fd, b, n, f, NULL, 0); }
int shutdown(int fd, int how) { (void) how; sched_point(p_switch); if(fd == rx_fd) { rx_shutdown = 1; udp_recv_ready_check(); } mark("SHUTDOWN fd=%d t=%lld", fd, now_ns); sched_point(p_switch); return mac_shutdown ? -1 : 0; }
int close(int fd) { if(fd >= 0 && fd < 4096 && fd != rx_fd) { sock_closed[fd] = 1; if(!n_sock_closed++) mark("SOCKCLOSE %d", fd); } if(fd == rx_fd && fd >= 0) { rx_closed = 1; udp_recv_ready_check(); mark("CLOSE fd=%d t=%lld", fd, now_ns); sched_point(p_switch); } return 0; }

/* --- function entry seam (instrumented build only) --- */
static long steps, step_limit = 400000000; static long max_steps_per_cycle, cycle_start_steps;
NOINSTR void __cyg_profile_func_enter(void *f, void *s) { (void) f; (void) s; steps++; if(steps > step_limit) { step_limit = 1L<<60; mark("STEPLIMIT"); finish(0); } if(p_instr && nco > 1) sched_point(p_instr); }
NOINSTR void __cyg_profile_func_exit(void *f, void *s) { (void) f; (void) s; }

/* --- process exit and crashes --- */
void __wrap_exit(int code) { mark("EXIT %d", code); finish(0); abort(); }
NOINSTR static void on_sig(int s) { static int once; if(once++) _exit(0); char b[64]; int n = snprintf(b, sizeof b, "\n\001CRASH signal %d\n", s); hist_flush(); if(write(1, b, n)) {} _exit(0); }
/* heap use by the reasoner is observed, not replaced */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void *__real_realloc(void*, size_t);
static long n_malloc; static int count_malloc;
void *__wrap_malloc(size_t n) { if(count_malloc && !in_hook) n_malloc++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if(count_malloc && !in_hook) n_malloc++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if(count_malloc && !in_hook) n_malloc++; return __real_realloc(p, n); }

/* --- linearisation record: which whole operations did the service threads perform, in which order --- */
extern void __real_NAR_Cycles(int); extern int __real_Shell_ProcessInput(char*); extern void __real_Shell_NARInit(void);
static int record_lin;
void __wrap_NAR_Cycles(int n)
{
    if(!record_lin || cur == 0 || co[cur].fdepth++) { __real_NAR_Cycles(n); if(record_lin && cur) co[cur].fdepth--; return; }
    mark("LB %d C %d t=%lld", cur, n, now_ns); __real_NAR_Cycles(n); mark("LE %d", cur); co[cur].fdepth--;
}
int __wrap_Shell_ProcessInput(char *l)
{
    if(!record_lin || cur == 0 || co[cur].fdepth++) { int r = __real_Shell_ProcessInput(l); if(record_lin && cur) co[cur].fdepth--; return r; }
    char hex[2*4100+1]; size_t n = strnlen(l, 4096); for(size_t i=0; i<n; i++) sprintf(hex+2*i, "%02x", (unsigned char) l[i]); hex[2*n] = 0;
    if(!last_nl || 1) { if(simout) fflush(simout); if(!last_nl) hist_raw("\n\001~\n", 4); }
    { char h2[64]; int k = snprintf(h2, sizeof h2, "\001LB %d P ", cur); hist_raw(h2, k); hist_raw(hex, 2*n); k = snprintf(h2, sizeof h2, " t=%lld\n", now_ns); hist_raw(h2, k); last_nl = 1; }
    int r = __real_Shell_ProcessInput(l);
    mark("LE %d rc=%d", cur, r); co[cur].fdepth--;
    return r;
}
extern void __real_NAR_INIT(void);
void __wrap_NAR_INIT(void) { __real_NAR_INIT(); find_storage(); }
void __wrap_Shell_NARInit(void)
{
    if(!record_lin || cur == 0 || co[cur].fdepth++) { __real_Shell_NARInit(); if(record_lin && cur) co[cur].fdepth--; return; }
    mark("LB %d R t=%lld", cur, now_ns); __real_Shell_NARInit(); mark("LE %d", cur); co[cur].fdepth--;
}

/* ------------------------------------------------------------------ per-cycle hook */
static long inv_every, snap_every; static int inv_mask = 3, inv_level = 1; static long cycles_seen;
static long cov_states; static uint64_t cov_seen[1<<14];
static void cover(uint64_t h) { h ^= h >> 29; uint64_t k = h & ((1<<14)-1); for(int i=0; i<64; i++) { uint64_t *p = &cov_seen[(k+i) & ((1<<14)-1)]; if(*p == h) return; if(!*p) { *p = h; cov_states++; return; } } }
static void on_cycle(void)
{
    cycles_seen++;
    long d = steps - cycle_start_steps; if(cycles_seen > 1 && d > max_steps_per_cycle) max_steps_per_cycle = d; cycle_start_steps = steps;
    { uint64_t h = (uint64_t) concepts.itemsAmount * 1000003u ^ (uint64_t) cycling_belief_events.itemsAmount * 10007u; for(int l=0; l<4; l++) h = h*31 + cycling_goal_events[l].itemsAmount;
      for(int i=0; i<concepts.itemsAmount && i < 64; i++) { Concept *c = concepts.items[i].address; h = h*1099511628211ull + (uint64_t) c->term.atoms[0]*131 + c->term.atoms[1]*17 + c->term.atoms[2] + (c->belief.type != 0)*7 + (c->belief_spike.type != 0)*3; } cover(h*2654435761u + 1); }
    if(inv_every && cycles_seen % inv_every == 0) check_invariants(inv_level, inv_mask);
}
/* states right before and after each reasoning cycle */
extern void __real_Cycle_Perform(long) __attribute__((weak));
static int cycle_depth, sel_depth; static long snap_sel;
void __wrap_Cycle_Perform(long t)
{
    static int full = -1, ends; if(full < 0) { full = (int) P("snap-full", 0); ends = (int) P("snap-ends", 0); }
    static long k; k++; int snap = snap_every && k % snap_every == 0;
    cycle_depth++;
    if(snap_sel) { mark("CB %d", cycle_depth); int q = sel_depth > 0; for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) q |= cycling_goal_events[l].itemsAmount > 0; sel_depth = 0; if(q) emit_state(1, "CYC"); }
    if(snap) { if(ends) mark("CB %d", cycle_depth); emit_state(full, "CYC"); }
    __real_Cycle_Perform(t);
    if(snap && ends) { mark("CE %d", cycle_depth); if(ends > 1) emit_state(full, "CYCE"); }
    if(snap_sel) { mark("CE %d", cycle_depth); if(sel_depth == cycle_depth) emit_state(1, "CYCE"); sel_depth = 0; }
    cycle_depth--;
}

/* ------------------------------------------------------------------ standard streams */
static int eof_seen; static int flush_check = 1;
static int op_exec_depth;
static char *rawq; static size_t rawq_n, rawq_o;
static void directive(Item_ *it);
static int is_input(Item_ *it) { return !strcmp(it->cmd, "line") || !strcmp(it->cmd, "raw") || !strcmp(it->cmd, "empty"); }
static long chunk_mode; /* 0: one plan item per read; n: random chunks of up to n bytes */
static ssize_t in_read(void *cookie, char *buf, size_t size)
{
    (void) cookie;
    if(flush_check && simout && __fpending(simout) > 0) mark("UNFLUSHED %zu", __fpending(simout));
    if(simout) fflush(simout);
    if(chunk_mode && rawq_n - rawq_o > 0) goto deliver;
    for(; plan_i < plan_n; plan_i++)
    {
        Item_ *it = &plan[plan_i];
        if(is_input(it))
        {
            size_t add; 
            if(chunk_mode) /* gather everything up to the next non-input directive */
            {
                for(; plan_i < plan_n && is_input(&plan[plan_i]); plan_i++)
                {
                    Item_ *q = &plan[plan_i]; static char tmp[9000]; 
                    if(!strcmp(q->cmd, "raw")) add = unhex(q->arg, (unsigned char*) tmp, sizeof tmp); else { add = snprintf(tmp, sizeof tmp, "%s\n", q->arg); }
                    rawq = realloc(rawq, rawq_n + add + 1); memcpy(rawq+rawq_n, tmp, add); rawq_n += add;
                }
                mark("IN chunked %zu", rawq_n - rawq_o);
                goto deliver;
            }
            plan_i++;
            static char tmp[9000]; 
            if(!strcmp(it->cmd, "raw")) add = unhex(it->arg, (unsigned char*) tmp, sizeof tmp); else add = snprintf(tmp, sizeof tmp, "%s\n", it->arg);
            mark("IN %d %s", plan_i-1, it->arg);
            if(add > size) add = size;
            memcpy(buf, tmp, add);
            if(add == 0) continue;
            if(poison_lines) poison_stack();
            return (ssize_t) add;
        }
        directive(it);
    }
    if(!eof_seen) { eof_seen = 1; mark("EOF"); }
    return 0;
    deliver:;
    size_t n = rawq_n - rawq_o; size_t m = 1 + frnd(chunk_mode); if(m > n) m = n; if(m > size) m = size;
    memcpy(buf, rawq + rawq_o, m); rawq_o += m;
    return (ssize_t) m;
}
/* control information: the pair of premises inference is about to be done with */
static long snap_apply;
static void see_application(const char *buf, size_t n)
{
    static int armed; static char ln[8192];
    while(n)
    {
        const char *e = memchr(buf, '\n', n); size_t m = e ? (size_t) (e - buf) : n; size_t l = m < sizeof ln - 1 ? m : sizeof ln - 1;
        memcpy(ln, buf, l); ln[l] = 0;
        if(armed && !strncmp(ln, " and ", 5))
        {
            in_out = 1; int save = in_hook; in_hook = 1; sb_n = 0;
            for(int i=0; i<concepts.itemsAmount; i++)
            {
                Concept *c = concepts.items[i].address;
                if(strcmp(term_str(&c->term), ln + 5)) continue;
                S("{\"n\":%d,\"nq\":%d,\"t\":%ld,\"thr\":", concepts.itemsAmount, cycling_belief_events.itemsAmount, currentTime); S_d(conceptPriorityThreshold); S(",\"pr\":"); S_d(c->priority);
                S(",\"b\":"); S_event(&c->belief); S(",\"bs\":"); S_event(&c->belief_spike); S("}");
                break;
            }
            in_hook = save; hist_raw("\001AP ", 4); hist_raw(sb, sb_n); hist_raw("\n", 1); in_out = 0;
        }
        armed = !strncmp(ln, "Apply rule table on ", 20);
        if(!e) break;
        buf += m + 1; n -= m + 1;
    }
}
static ssize_t out_write(void *cookie, const char *buf, size_t n)
{
    (void) cookie;
    hist_raw(buf, n); if(n) last_nl = buf[n-1] == '\n';
    if(snap_apply && n > 4 && buf[n-1] == '\n') see_application(buf, n);
    if(snap_sel && n > 10 && buf[n-1] == '\n') /* streams are line buffered then */
    {
        static char ln[8192]; size_t b = n - 1; while(b > 0 && buf[b-1] != '\n') b--;
        size_t m = n - b; if(m >= sizeof ln) m = sizeof ln - 1;
        memcpy(ln, buf + b, m); ln[m] = 0;
        if(!strncmp(ln, "Selected: ", 10) && (snap_sel > 1 || strstr(ln, "! :|:"))) { in_out = 1; sel_depth = cycle_depth; emit_state(1, "SEL"); in_out = 0; }
    }
    return (ssize_t) n;
}

/* ------------------------------------------------------------------ scripted operations */
static char op_script[16][256]; static int op_pos[16]; static int op_count[16];
static Feedback op_common(int k, Term args)
{
    char r = op_script[k][op_pos[k]] ? op_script[k][op_pos[k]++] : '.';
    op_count[k]++;
    Feedback fb = {0};
    mark("OP %d %s args=%s", k, r == 'x' ? "fails" : "succeeds", term_str(&args));
    if(r == 'x') fb.failed = true;
    return fb;
}
#define OPF(k) static Feedback opf##k(Term a) { return op_common(k, a); }
OPF(0) OPF(1) OPF(2) OPF(3) OPF(4) OPF(5) OPF(6) OPF(7) OPF(8) OPF(9)
static Action opfs[] = { opf0, opf1, opf2, opf3, opf4, opf5, opf6, opf7, opf8, opf9 };

/* ------------------------------------------------------------------ directives */
static void udp_wait(long long ns) { long long until = now_ns + ns; while(now_ns < until) block(BLK_SLEEP, NULL, until); }
static void directive(Item_ *it)
{
    const char *c = it->cmd, *a = it->arg;
    if(!strcmp(c, "state")) emit_state(1, "STATE");
    else if(!strcmp(c, "light")) emit_state(0, "STATE");
    else if(!strcmp(c, "inv")) check_invariants(2, 3);
    else if(!strcmp(c, "digest")) { state_text(1); mark("DIGEST %016llx", (unsigned long long) fnv(sb, sb_n)); }
    else if(!strcmp(c, "note")) mark("NOTE %s", a);
    else if(!strcmp(c, "srand")) mysrand((unsigned) atol(a));
    else if(!strcmp(c, "snapon")) snap_every = atol(a);
    else if(!strcmp(c, "clock")) now_ns += atoll(a);
    else if(!strcmp(c, "cycles")) NAR_Cycles(atoi(a));
    else if(!strcmp(c, "poisonstack")) poison_stack();
    else if(!strcmp(c, "init")) NAR_INIT();
    else if(!strcmp(c, "shellinit")) Shell_NARInit();
    else if(!strcmp(c, "set-printderivations")) PRINT_DERIVATIONS = atoi(a);
    else if(!strcmp(c, "addop")) { int k; char nm[64] = {0}, sc[256] = {0}; if(sscanf(a, "%d %63s %255s", &k, nm, sc) >= 2 && k >= 0 && k < 10) { strcpy(op_script[k], sc); op_pos[k] = 0; NAR_AddOperation(strdup(nm), opfs[k]); } }
    else if(!strcmp(c, "reseed")) rs = (uint64_t) atol(a) * 2654435761u + 88172645463325252ull;
    else if(!strcmp(c, "nanosleep")) { if(nco > 1) udp_wait(atoll(a)); else now_ns += atoll(a); }
    else if(!strcmp(c, "udpstart")) { char ip[64] = "127.0.0.1"; int port = 50000; long ts = 1000000; sscanf(a, "%63s %d %ld", ip, &port, &ts); mark("CALL start t=%lld", now_ns); UDPNAR_Start(ip, port, ts); mark("RET start t=%lld", now_ns); if(P("trash-stack", 1)) poison_stack(); sched_point(2); }
    else if(!strcmp(c, "udpstop")) { mark("CALL stop t=%lld", now_ns); UDPNAR_Stop(); mark("RET stop t=%lld", now_ns); }
    else if(!strcmp(c, "drain")) /* let queued datagrams be received: bounded simulated time */
    { long long until = now_ns + atoll(a); while(now_ns < until && (rq_n || net_next() >= 0)) block(BLK_SLEEP, NULL, now_ns + 1000000); mark("DRAINED left=%d t=%lld", rq_n, now_ns); }
    else if(!strcmp(c, "p")) { static char b[4200]; memset(b, 0, sizeof b); unhex(a, (unsigned char*) b, 4100); int r = Shell_ProcessInput(b); mark("RC %d", r); }
    else if(!strcmp(c, "r")) { int pd = PRINT_DERIVATIONS; Shell_NARInit(); PRINT_DERIVATIONS = pd; }
    else if(!strcmp(c, "process")) { char b[NARSESE_LEN_MAX+1]; memset(b, 0, sizeof b); unhex(a, (unsigned char*) b, NARSESE_LEN_MAX); mark("IN %d %s", plan_i, b); int r = Shell_ProcessInput(b); if(r == SHELL_RESET) Shell_NARInit(); else if(r == SHELL_EXIT) mark("QUIT"); }
}
static void *main_co(void *arg)
{
    (void) arg;
    const char *mode = PS("mode", "shell");
    if(!strcmp(mode, "shell")) { NAR_INIT(); Shell_Start(); mark("SHELLRET"); for(; plan_i < plan_n; plan_i++) if(!is_input(&plan[plan_i])) directive(&plan[plan_i]); }
    else
    {
        if(!strcmp(mode, "udp")) { NAR_INIT(); PRINT_DERIVATIONS = P("print-derivations", 1); }
        for(plan_i=0; plan_i < plan_n; plan_i++)
        {
            Item_ *it = &plan[plan_i];
            if(!strcmp(it->cmd, "line"))
            {
                char b[9000]; memset(b, 0, sizeof b); snprintf(b, sizeof b, "%s", it->arg);
                mark("IN %d %s", plan_i, it->arg);
                int r = Shell_ProcessInput(b);
                if(r == SHELL_RESET) Shell_NARInit(); else if(r == SHELL_EXIT) { mark("QUIT"); break; }
            }
            else if(!strcmp(it->cmd, "nline")) { char b[9000]; snprintf(b, sizeof b, "%s", it->arg); mark("IN %d %s", plan_i, it->arg); NAR_AddInputNarsese(b); }
            else directive(it);
        }
    }
    if(simout) fflush(simout);
    if(P("end-digest", 0)) { state_text(1); mark("DIGEST %016llx", (unsigned long long) fnv(sb, sb_n)); }
    mark("END t=%lld", now_ns);
    mark("STATS cycles=%ld sendto=%ld sockets=%ld simns=%lld switches=%ld points=%ld schedhash=%016llx states=%ld steps=%ld maxsteps=%ld mallocs=%ld ctime=%ld spurious=%ld oversleep=%ld netdrop=%ld",
         cycles_seen, n_sendto, n_sockets, now_ns, switches, sched_points, (unsigned long long) sched_hash, cov_states, steps, max_steps_per_cycle, n_malloc, currentTime, n_spurious, n_oversleep, net_dropped);
    finish(0);
    return NULL;
}
int main(int argc, char **argv)
{
    if(argc < 2) { fprintf(stderr, "usage: sim plan\n"); return 2; }
    hist_cap = 1<<20; hist = malloc(hist_cap);
    plan_load(argv[1]);
    struct rlimit rl = { 20, 20 }; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    static char altstack[1<<16]; stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack }; sigaltstack(&ss, NULL);
#ifndef NO_SIGHANDLERS
    struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK };
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU };
    for(unsigned i=0; i<sizeof sigs/sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
#endif
    rs = (uint64_t) P("simseed", 1) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; fs = rs ^ 0xD1B54A32D192ED03ull; for(int i=0; i<8; i++) { rnd(); frnd(2); }
    mysrand((unsigned) P("prng", 666));
    poison = (int) P("poison", 0xA5); poison_lines = (int) P("poison-lines", 0);
    p_switch = P("p-switch", 0); p_instr = P("p-instr", 0); f_spurious = P("spurious", 0); f_oversleep = P("oversleep", 0);
    cycle_cost = P("cycle-cost", 100000); inv_every = P("inv-every", 0); inv_mask = (int) P("inv-mask", 3); inv_level = (int) P("inv-level", 1); snap_every = P("snap-every", 0);
    chunk_mode = P("chunk", 0); mac_shutdown = (int) P("mac-shutdown", 0); rq_max = (int) P("rq-max", 64);
    f_socket_fail = P("socket-fails", 0); f_sendto_fail = P("sendto-fails", 0); f_socket_zero = P("socket-zero", 0);
    cap_imported_stamps = (int) P("imported-stamps", 0); flush_check = (int) P("flush-check", 1); step_limit = P("step-limit", step_limit);
    explicit_mode = (int) P("sched-explicit", 0); time_limit = P("time-limit-s", 3600)*1000000000ll;
    record_lin = (int) P("record", 0);
    for(int i=0; i<plan_n; i++)
    {
        if(!strcmp(plan[i].cmd, "sp") && explicit_n < 4096) { explicit_at[explicit_n] = atol(plan[i].arg); char *q = strchr(plan[i].arg, ' '); explicit_to[explicit_n++] = q ? atoi(q) : 0; }
        if(!strcmp(plan[i].cmd, "dgram") && dg_n < 4096) /* dgram id time_ns hex */
        { Dgram *d = &dg[dg_n++]; char *hex = calloc(1, strlen(plan[i].arg)+1); sscanf(plan[i].arg, "%d %lld %s", &d->id, &d->at, hex); d->b = malloc(strlen(hex)/2+1); d->len = unhex(hex, d->b, strlen(hex)/2); free(hex); }
        if(!strcmp(plan[i].cmd, "recverr") && recv_errs_n < 256) { sscanf(plan[i].arg, "%d %d", &recv_errs[recv_errs_n][0], &recv_errs[recv_errs_n][1]); recv_errs_n++; }
    }
    cookie_io_functions_t fi = { .read = in_read }, fo = { .write = out_write };
    simout = fopencookie(NULL, "w", fo); snap_sel = P("snap-sel", 0); snap_apply = P("snap-apply", 0); setvbuf(simout, NULL, snap_sel || snap_apply ? _IOLBF : _IOFBF, 1<<16); stdout = simout;
    stdin = fopencookie(NULL, "r", fi); setvbuf(stdin, NULL, _IOFBF, 1<<15);
    count_malloc = 1;
    nco = 0; cur = 0;
    spawn(main_co, NULL);
    static ucontext_t back; co[0].ctx.uc_link = &back;
    cur = 0;
    setcontext(&co[0].ctx);
    return 0;
}
