import json,os,glob
P={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); P[d['id']]=d
rows={
'C01':("enumerate: every prefix with few host bits on edge values and places; all masks with ≤ 3 host bits anywhere; all masks and bases of windows; up to 12 scattered host bits; block masks; sequences of networks, all pairs of masks with ≤ 2 host bits and of 5-bit patterns; up to 2^20 lines of some; first lines of networks of any size through a pipe","members computed by counting over the host bits on integers"),
'C02':("minimize: all subsets of a 15-node binary tree at several offsets, sets of 16 equal networks, all sequences ≤ 4 of a 7-node tree, every pair of prefixes, sets of ≤ 3 of the 27 masked networks of 3 bits (adjacent and scattered), chains of merges over all levels, registered blocks with neighbours, lists of up to 2049; 260 to 1100 unmergeable networks with any two of 27 others","equality of unions: exact intervals (CIDR) or cube algebra (lopsided, `cubes.rs`)"),
'C03':("the same; all permutations and repetitions of small ones; result fed back","CIDR: the canonical list; lopsided: no containment, no mergeable pair, sorted; fixpoint"),
'C04':("derange: all pairs of a window at all offsets, near powers of two, both ends of both families, two windows under one high difference, registered blocks","canonical cover computed on integers by an independent greedy algorithm"),
'C05':("split: each prefix with counts around each power of two; sequences of counts ≤ 4..6 over alphabets; multisets of block sizes in all orders; counts up to and beyond 2^128; lists of up to 300 counts; all sequences of 4 and 5 counts of three successive sizes at every size; networks at both ends and at places","block sizes by definition; disjointness, containment, alignment, order of request; refused exactly if the sum exceeds"),
'C06':("the same","canonical cover of (network minus printed slices)"),
'C07':("resize: all pairs of prefixes (≤ 2^12 subnets, some 2^17), any mask to any mask of a window with all bases, block masks, places","unravel–extend–weave on integers for every subnet in the output"),
'C08':("the same to equal and larger sizes, prefix 0 included","the same"),
'C09':("show: every prefix × edge values, window addresses around the end of the prefix, all masks of windows, sparse masks, places, sequences of networks, pairs of masks","the definitions on integers"),
'C10':("the same with colours off and on, all modes, usage and refusals","fixed layout; coloured minus escapes = uncoloured"),
'C11':("all patterns of zero groups × every place of `::` × styles; all 65536 values of each group; all octet widths; as address, mask and wildcard","reader/writer of RFC 4291 in the model; printed text is read back"),
'C12':("all words up to 6–7 over small alphabets, all single (thorough: double) edits of valid texts, numbers around every power of 2 and 10, in every position of every mode","three-valued classifier (valid with value / malformed / unspecified)"),
'C13':("every mask of the spaces in prefix, mask and wildcard form (IPv6: also spelt out and in capitals), in every mode","outputs equal to each other"),
'C14':("operations on pairs of edge values, places and windows across the halves and words; all small and extreme offsets","u128 arithmetic"),
'C15':("all masks and bases of windows; relations of all pairs of window networks","sets of members, listed"),
'C16':("all sequences ≤ 4 of 40-odd words, all short strings over an alphabet, arguments up to 60000 characters, up to 3000 arguments, all shapes of networks in all modes","terminates, status 0/1, streams well-formed, no panic message"),
'C17':("every placement of one or two faults in the write calls of a list of invocations, everything failing from call k on, partial writes throughout, byte-wise delivery","prefix of the undisturbed output and non-zero status, or the complete output"),
'C18':("all sequences ≤ 4 of valid/malformed words of both families per mode; one odd argument at every place of lists of 5 to 70; lists of 100 to 1025","refusal as a whole; concatenation of the single results"),
'C19':("all addresses × masks of windows; conversions for all prefixes and masks of windows","the permutation of bits by definition"),
'C20':("histories of two and three steps: derange→minimize→enumerate, show→all, split→minimize, resize→minimize→back, minimize in parts, printed addresses as arguments","the outputs themselves"),
'C21':("64 hash seeds that produce all iteration orders of maps up to 4 entries (measured, `explorer orders`); every variable, file, clock, identity, size and directory that the program asks for (libc interposed), given other values; every capital word of the binary as a variable; words of the sources as variables; terminals (ptys) as any of the standard streams; both profiles","equal results"),
'C22':("every option in both forms × sequences of words, all sequences ≤ 4 for arity, near misses of options, options behind the first place","usage text, equality of long and short, refusal"),
'C23':("show with colours: all first bytes × prefixes, edge values, lopsided masks, places; the other modes","partition of the bits by the mask; class bits of RFC 791"),
'C24':("enumerate of networks of every size and many masks through a pipe that is closed after some lines, address space limited; peak memory after 2^k lines","the first lines of C01 within a time limit; memory not growing with k"),
'C25':("every mask of windows, every prefix, lopsided masks, places: the network named by each window value of its host bits, single host bits, runs of host bits, well-known addresses; ~15 uses in all modes","equality with the run that names the base"),
'C26':("some 10000 invocations on IPv4 against the same at 11 (thorough: 160) places of IPv6; 800 invocations in 8/16-bit blocks at 2200 places; coarse shapes in blocks of every size from 3 to 127 bits around registered blocks","the outputs relative to the block are equal"),
'C27':("chains resize→resize each: every prefix in two steps, there and back; window masks in triples; 2^16 subnets by way of 2^8","equality with resizing at once"),
'C28':("invocations of every mode under a seccomp filter (below) in 200 surroundings: data on stdin, a terminal, a user's environment, every variable asked for or named in the binary; the spaces of C16 and others confined","no forbidden call, result as unconfined"),
'C29':("multisets of ≤ 4 of 12 counts in every order per size; lists around halves, quarters, eighths to thirty-seconds on every prefix; 8–100 counts rotated, reversed, swapped; places","same blocks, sizes, rest, or refused in every order"),
'C30':("CLICOLOR_FORCE × NO_COLOR × CLICOLOR × TERM × terminals as any of the three streams × 20 invocations; the colour test; prefixes, lopsided masks and places in all modes with colours on","a decision table (undefined where the conventions disagree); equality with the coloured or uncoloured run; a reader of SGR sequences"),
'C31':("2243 malformed networks (every octet, group, prefix out of range; 80 texts of another shape) in every mode, alone and among others; two faults in one argument; ends of ranges, targets, counts; all sequences of ≤ 5 of 8 networks, half of them malformed; 20–1030 arguments; both streams in one file or pipe","the message about the fault alone; words (number, position, limit) and quotations that the message has to contain"),
'C32':("all pairs of octets; every value of every group; every sequence of eight groups of 5 kinds; places and prefixes and lopsided masks in all modes","an independent formatter; every token of the output"),
}
times=json.load(open('/verif/tools/times.json')) if os.path.exists('/verif/tools/times.json') else {}
tab='| id | property | space enumerated | oracle | quick |\n|---|---|---|---|---|\n'
for i in sorted(P):
    tab+=f"| {i} | {P[i]['title']} | {rows[i][0]} | {rows[i][1]} | {times.get(i,'')} |\n"
seeds={}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d))
missed=set(open('/verif/tools/missed_first.txt').read().split())
st=''
for p in sorted(seeds):
    st+=f"* **{p}**: "+'; '.join(f"`{n}`{' (missed at first)' if n in missed else ''} — {d['needs'].rstrip('.')}" for n,d in seeds[p])+'\n'
t=open('/verif/tools/design.in').read().replace('@@TABLE@@',tab).replace('@@SEEDS@@',st).replace('@@NSEEDS@@',str(sum(map(len,seeds.values()))))
open('/verif/DESIGN.md','w').write(t)
