#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json, which are committed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, level="model_checking", technique=None, note=None, hook=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level=level, technique=technique, note=note, hook=hook)

TEST = "The tests call one function on a handful of literals (31 tests in all); "
EXPL = "explicit-state exploration of the implementation: exhaustive bounded enumeration of invocations against an executable reference model"
BASE = "Every invocation within the bounds listed in the evidence file is run on ripcalc's own code (in-process through the guarded server build, every few thousandth case and every failing case again on the unmodified binary) and compared with an independent integer model. "
TRUST = "Outside those bounds nothing is claimed. Trusted: rustc, the standard library, the dependencies, and the reference model in explorer/src/model.rs."
API = "Calls to the internal types go through the guarded server; if an internal interface changes so that the server no longer compiles with it, that part is left out and the evidence says so (command-line cases remain). "

props = [
P("C01", "Enumeration lists exactly the members, ascending",
  "For every network of either family, lopsided ones included, the enumerate mode prints each address whose masked bits equal the network's exactly once, in ascending order, one per line, and nothing else, with exit status 0. Several networks are listed one after another in the order of the arguments.",
  ["inputs"], "every network of both families: 2^32 (2^128) addresses times all masks, the ends of the address space included; and every sequence of them",
  TEST + "enumeration is tested on one CIDR and one lopsided network per family, none at an end of the address space and none with host bits in several separate places.",
  ["src/cmds/enumerate.rs", "src/bit_manip.rs"],
  [("gathering and scattering of the host bits", "src/bit_manip.rs: unravel_address, weave_address"), ("iteration with a stop at the last address", "src/cmds/enumerate.rs: NetworkIter")],
  ["standard output and exit status of ripcalc --enumerate"]),
P("C02", "Minimizing neither adds nor loses an address",
  "For every non-empty list of networks of one family, the networks printed by the minimize mode cover exactly the union of the addresses of the arguments.",
  ["inputs"], "every list of networks of one family, CIDR and lopsided, overlapping, nested, adjacent, duplicated, in any order",
  TEST + "minimizing is tested on four lists; the merging and dropping loop depends on how networks interact, which four lists do not exhaust.",
  ["src/cmds/minimize.rs", "src/net.rs"],
  [("only networks that differ in a single bit are merged", "src/cmds/minimize.rs: minimize_subnets"), ("subset test before a network is dropped", "src/net.rs: is_superset_of")],
  ["standard output of ripcalc --minimize"]),
P("C03", "Minimizing yields the canonical shortest list",
  "For CIDR networks the minimize mode prints the unique shortest list of networks with that union, in ascending order, whatever the order and repetition of the arguments, and minimizing it again changes nothing. For lopsided networks no printed network is contained in another, no two with the same mask differ only in its lowest network bit, and the list is sorted.",
  ["inputs"], "every list of networks of one family and every permutation and repetition of it",
  TEST + "four lists in one order each; that no further merge is possible afterwards is a fixpoint property over all lists.",
  ["src/cmds/minimize.rs", "src/net.rs"],
  [("loop until nothing changes", "src/cmds/minimize.rs: minimize_subnets"), ("final sort by base address and mask", "src/cmds/minimize.rs: minimize_subnets")],
  ["standard output of ripcalc --minimize"]),
P("C04", "Deranging yields the minimal ascending partition of the range",
  "For every two addresses of one family the derange mode prints, in ascending order, the unique shortest list of CIDR networks that together contain exactly the addresses from the lower to the higher one, in whichever order the two are given.",
  ["inputs"], "every pair of addresses of one family, ranges that touch either end of the address space included",
  TEST + "deranging is tested on one range per family; in particular nothing reached the end of the address space, where the code panicked.",
  ["src/cmds/derange.rs"],
  [("largest block that starts here and does not pass the end", "src/cmds/derange.rs: range_to_subnets")],
  ["standard output and exit status of ripcalc --derange"]),
P("C05", "Split slices are the smallest fitting, disjoint, inside, in request order",
  "When the block sizes needed for the requested host counts add up to at most the size of the CIDR network, the split mode prints for every count, in the order requested, an aligned block inside the network which is the smallest with at least that many host addresses, and no two blocks overlap. Otherwise it says that there are not enough addresses or that the network is too small, and lists no unused networks.",
  ["inputs"], "every CIDR network, at the ends of the address space as well, and every list of host counts from 0 to beyond the address space",
  TEST + "splitting is tested on six lists and only below the command line; counts around powers of two, full networks and the end of the address space are not touched.",
  ["src/cmds/split.rs", "src/net.rs"],
  [("largest first, so that every block is aligned", "src/cmds/split.rs: split_subnet"), ("slices are put back into the order of the request", "src/cmds/split.rs: split_subnet"), ("containment check", "src/cmds/split.rs: output_split")],
  ["standard output of ripcalc --split"]),
P("C06", "Split slices and unused networks tile the network exactly",
  "Whenever a split fits, the slices and the listed unused networks are pairwise disjoint and together contain exactly the addresses of the network that was split. The unused networks are listed in ascending order and are as few as possible, and there is no such list if nothing is unused.",
  ["inputs"], "every CIDR network and every list of host counts that fits into it",
  TEST + "the list of unused networks is not tested at all.",
  ["src/cmds/split.rs", "src/cmds/derange.rs"],
  [("rest from the last used address to the end of the network", "src/cmds/split.rs: output_split"), ("partition of the rest", "src/cmds/derange.rs: range_to_subnets")],
  ["standard output of ripcalc --split"]),
P("C07", "Resizing to smaller networks shows every subnet once, in order",
  "If the target mask has k more network bits than the network, the resize mode shows the original network and then exactly 2^k subnets with the target mask, numbered from 1 and in ascending order of their network bits: the network's own bits first, followed by each value of k bits, placed into the network bits of the target mask.",
  ["inputs"], "every network and every target prefix, mask or wildcard of its family, lopsided on either side",
  TEST + "resizing is tested below the command line on a few networks; lopsided to lopsided and the last subnet at the end of the address space are not.",
  ["src/cmds/resize.rs", "src/bit_manip.rs"],
  [("gathering, shifting and scattering of network bits", "src/cmds/resize.rs: resize_network; src/bit_manip.rs: unravel_address, weave_address"), ("stepping with overflow check", "src/cmds/resize.rs: resize_network")],
  ["standard output of ripcalc --resize"]),
P("C08", "Resizing to a larger or equal size shows the one right network",
  "If the target mask has at most as many network bits as the network, the resize mode shows the original network and then exactly one network, called a supernet or a same-sized net, which has the target mask and the leading network bits of the original.",
  ["inputs"], "every network and every target prefix, mask or wildcard of its family with at most as many network bits, zero included",
  TEST + "a few literals; prefix 0, all-ones bases and lopsided targets are not tested.",
  ["src/cmds/resize.rs", "src/bit_manip.rs"],
  [("gathering, shifting and scattering of network bits", "src/cmds/resize.rs: resize_network; src/bit_manip.rs")],
  ["standard output of ripcalc --resize"]),
P("C09", "Every fact shown about a network is arithmetically right",
  "For every address and mask the default mode shows the address, mask (with the prefix exactly if the mask is one), wildcard, network, first and last host, broadcast address, number of hosts and IPv4 class that follow from the definitions; networks of fewer than four addresses show that they have no hosts or no broadcast address instead.",
  ["inputs"], "every address with every mask of both families",
  TEST + "some network constructors are tested on single literals; nothing checks the displayed facts, tiny networks, the whole address space or lopsided masks together.",
  ["src/cmds/show_net.rs", "src/net.rs", "src/addr.rs"],
  [("derived addresses of a network", "src/net.rs: first_host_addr, last_host_addr, broadcast_addr, host_count, cidr_prefix"), ("class from leading bits", "src/cmds/show_net.rs: output_ipv4_class")],
  ["standard output of ripcalc ADDRESS/MASK"]),
P("C10", "The layout is stable and colours never change the text",
  "Every block consists of the documented lines in their order, each terminated, with the binary columns aligned and equal to the address on their line. With colours off there are no escape sequences, and removing the escape sequences from coloured output gives the uncoloured output in every mode.",
  ["inputs", "configurations"], "every address with every mask, every sequence of networks, every mode, with colours on and off",
  TEST + "no test looks at what is printed; with colours off the output was torn into one fragment per line.",
  ["src/console.rs", "src/cmds/show_net.rs"],
  [("padding before colouring", "src/console.rs: write_in_color"), ("line structure", "src/cmds/show_net.rs: output_network")],
  ["standard output with and without CLICOLOR_FORCE=1"]),
P("C11", "Every valid spelling of an address is read and printed faithfully",
  "Every dotted-quad IPv4 address and every IPv6 address in any spelling of RFC 4291 section 2.2 (1), (2) in either case is accepted and denotes the address that the RFC says. Every address ripcalc prints is valid text, and reading it gives the same address again.",
  ["inputs"], "every address of both families in every spelling: leading zeros, letter case, every place and length of \"::\"",
  TEST + "parsing is tested on about thirty literals; compression at the first or last group was wrong for some of the others.",
  ["src/addr.rs", "src/cmds/mod.rs"],
  [("parsers", "src/addr.rs: FromStr for Ipv4Address and Ipv6Address"), ("formatting with zero compression", "src/addr.rs: Display for Ipv6Address"), ("patterns of network specifications", "src/cmds/mod.rs")],
  ["standard output of every mode; the address types' parsers and formatters"]),
P("C12", "Malformed addresses, masks, prefixes and counts are refused",
  "Text that is not an address, network, prefix, mask, wildcard or host count of the required family and range is refused: a message on standard error, a non-zero exit status, no panic and, except for enumeration of other networks, nothing on standard output.",
  ["inputs"], "every string in every argument position of every mode",
  TEST + "about ten malformed literals are tested; which strings are accepted is a question about all strings.",
  ["src/addr.rs", "src/cmds/mod.rs"],
  [("anchored patterns", "src/cmds/mod.rs: IPV4_WITH_SUBNET_REGEX and following"), ("range checks", "src/cmds/mod.rs: parse_netspec, parse_subnet"), ("parsers", "src/addr.rs")],
  ["exit status, standard output and standard error"]),
P("C13", "CIDR, mask and wildcard notation are interchangeable",
  "In every mode that takes a network or target size, the CIDR prefix, the subnet mask and the wildcard with a leading minus that denote the same mask give exactly the same output and exit status; a lopsided mask and its wildcard do so too, and so does, in a network, a minus and the number of host bits (10.0.0.0/-8 is 10.0.0.0/24).",
  ["inputs"], "every mask in all its notations, for every address, in every mode",
  TEST + "the notations are never compared with each other; the resize mode refused wildcards altogether.",
  ["src/cmds/mod.rs", "src/net.rs", "src/addr.rs"],
  [("one network type built from prefix or mask", "src/cmds/mod.rs: parse_netspec, parse_subnet; src/net.rs: new_with_prefix, new_with_mask")],
  ["standard output and exit status in all modes"]),
P("C14", "Address arithmetic is integer arithmetic",
  "Adding and subtracting addresses and offsets, comparing, and the bitwise operations on addresses give the result of the same operation on 32- or 128-bit unsigned integers, carries and borrows included, and report an overflow exactly if the integer result does not fit.",
  ["inputs"], "all pairs of addresses and all offsets of both families",
  TEST + "additions are tested on a few literals; the borrow between the two halves of an IPv6 address and the smallest offset were wrong.",
  ["src/addr.rs"],
  [("carry and borrow between halves", "src/addr.rs: add_internal, sub_internal, add_addr, add_offset, subtract_addr, subtract_offset and the operators of Ipv4Address and Ipv6Address")],
  ["the address types' operations (guarded server); ranges at all carries through --derange, --enumerate and the default mode"],
  hook="server build: --cfg ripcalc_mc --cfg ripcalc_mc_addr"),
P("C15", "Network construction and set relations agree with the members",
  "A network built from any address and mask or prefix has the masked address as its base; its membership, subset, superset, intersection, first, last, next-network and count answers are those of the set of addresses that agree with the base on all mask bits.",
  ["inputs"], "all pairs of networks of both families, lopsided ones included",
  TEST + "the relations are tested on a few literals; intersection of lopsided networks was wrong.",
  ["src/net.rs"],
  [("relations by first and last address and by masks", "src/net.rs: contains, is_superset_of, is_subset_of, intersects"), ("successor network", "src/net.rs: next_subnet_base_addr")],
  ["the network type's operations (guarded server); --minimize and --split through the command line"],
  hook="server build: --cfg ripcalc_mc --cfg ripcalc_mc_net"),
P("C16", "Every invocation ends with a result or a message, never a crash",
  "For any arguments that are Unicode text and whose result fits into memory the program ends by itself, without panic or signal, with status 0 and a result on standard output and nothing on standard error, or with status 1 and a message. Every stream it writes ends in a complete line of printable text.",
  ["inputs"], "every sequence of argument strings",
  TEST + "no test runs the program; panics at the ends of the address space and for unusual combinations were not noticed.",
  ["src/main.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/minimize.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs"],
  [("argument count checks and dispatch", "src/main.rs: do_main"), ("errors as values", "src/cmds/mod.rs: ParseNetspecError")],
  ["exit status, standard output and standard error"]),
P("C17", "Undelivered output is never reported as success",
  "If any byte of output cannot be delivered because a write fails, the exit status is not 0, and what was delivered on standard output is a prefix of the undisturbed output. If writes are merely interrupted or partial, the output is complete and unchanged and so is the exit status.",
  ["fault_sequences"], "every sequence of interrupted, partial and failing writes during every invocation",
  "The tests never run the program, let alone with a full disk or a closed pipe; the quantifier is over fault positions in the sequence of writes.",
  ["src/main.rs", "src/console.rs", "src/cmds/show_net.rs"],
  [("printing macros that end the process on failure", "src/console.rs: write_in_color; println! in src/cmds/*.rs"), ("line-buffered standard output with complete last lines", "src/cmds/*.rs")],
  ["exit status and delivered bytes under injected faults"],
  level="fault_enumeration", technique="exhaustive fault enumeration: every placement of one or two write faults (thorough: three) in the real binary's system calls",
  note="Every placement of the faults listed in the evidence, in the write(2)/writev(2) calls of the unmodified binary, by an LD_PRELOAD stand-in. Invocations are a fixed list that covers all modes, refusals and coloured output. Not covered: output through other system calls, and standard output that was closed before the start (the standard library reports success then)."),
P("C18", "Families never mix and one malformed argument spoils the result",
  "IPv4 and IPv6 never meet in one network, range, target or list to be minimized: such an invocation is refused as a whole. One malformed network among the arguments of the default or minimize mode, or one malformed host count, means that no result is printed; the output for several networks is that for each of them, in their order.",
  ["inputs"], "every sequence of valid and malformed arguments of both families in every mode",
  TEST + "the check for mixed families is not tested, nor is anything with several arguments on the command line.",
  ["src/cmds/mod.rs", "src/cmds/show_net.rs", "src/cmds/minimize.rs", "src/cmds/enumerate.rs", "src/cmds/derange.rs", "src/cmds/resize.rs"],
  [("all arguments are parsed before anything is printed", "src/cmds/show_net.rs: show_net; src/cmds/mod.rs: parse_same_family_netspecs"), ("family check", "src/cmds/mod.rs: parse_same_family_netspecs; src/cmds/derange.rs; src/cmds/resize.rs")],
  ["exit status, standard output and standard error"]),
P("C19", "Gathering and scattering of bits and mask conversion are bijective",
  "Rearranging the bits of any address so that host bits follow network bits, and back, is a bijection for every mask that keeps the order within both groups. Prefix and mask convert to each other without loss, and a mask has a prefix exactly if all its ones precede its zeros.",
  ["inputs"], "all addresses with all masks of both families",
  TEST + "rearrangement is tested on six literals per direction.",
  ["src/bit_manip.rs", "src/cidr.rs", "src/net.rs"],
  [("rearrangement", "src/bit_manip.rs: unravel_address, weave_address"), ("conversion", "src/cidr.rs: subnet_mask_bytes_from_prefix, prefix_from_subnet_mask_bytes")],
  ["the functions themselves (guarded server); --enumerate and --resize of lopsided networks"],
  hook="server build: --cfg ripcalc_mc --cfg ripcalc_mc_bits"),
P("C20", "The modes agree when one is fed what another printed",
  "What any mode prints is accepted by the others and denotes the same networks: minimizing a deranged range, a network's subnets, its slices with the unused rest, or its enumerated addresses gives back what they came from, and first, last and number of enumerated addresses are those shown. Minimizing in parts and then together is the same as minimizing at once.",
  ["inputs", "histories"], "every chain of two modes on every input of the first",
  TEST + "no test combines two modes or feeds printed text back.",
  ["src/cmds/mod.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs", "src/net.rs"],
  [("one textual form of networks, printed and parsed", "src/net.rs: Display for IpNetwork; src/cmds/mod.rs: parse_netspec")],
  ["standard output of chains of invocations"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of two-step histories of invocations, outputs of one step being inputs of the next"),
P("C21", "The result depends on nothing but the arguments",
  "Exit status, standard output (apart from colours) and standard error are the same whatever the random seed of the hash maps, the environment variables, program name, standard input and kind of standard output are, and for debug and release builds.",
  ["inputs", "configurations"], "every invocation in every environment and with every hash seed",
  TEST + "hash iteration order is random in every run, so a dependence on it shows only now and then; overflow checks differ between the profiles tests and users use.",
  ["src/cmds/minimize.rs", "src/cmds/split.rs", "src/main.rs", "src/console.rs"],
  [("sorting after the hash collections", "src/cmds/minimize.rs: minimize_subnets; src/cmds/split.rs: split_subnet"), ("mode chosen by the first argument only", "src/main.rs: do_main"), ("checked arithmetic", "src/addr.rs, src/net.rs")],
  ["exit status, standard output and standard error in all these configurations"],
  technique="explicit-state exploration of the implementation: exhaustive enumeration of configurations (hash seeds, surroundings, build profiles) for each of a bounded set of invocations"),
P("C22", "Options: long equals short, first place only, wrong arity shows usage",
  "The long and the short form of each option do the same, and options count only as the first argument; any other text there is taken as a network. Without arguments or with the wrong number for a mode the usage text goes to standard error with status 1 and nothing to standard output; --help gives it with status 0.",
  ["inputs"], "every first argument and every number of arguments",
  TEST + "the command line is not tested.",
  ["src/main.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs", "src/cmds/minimize.rs", "src/cmds/resize.rs", "src/cmds/split.rs"],
  [("dispatch", "src/main.rs: do_main"), ("argument counts", "src/cmds/*.rs: first lines of each mode")],
  ["exit status, standard output and standard error"]),
P("C23", "Colours tell network, host and class bits apart correctly",
  "With colours on, in the binary form of the address and of the network every bit under the mask has one colour and every other bit another one. On the network line of an IPv4 network the leading bits that determine its class have the colour of the class name instead, exactly if all of them belong to the network.",
  ["inputs", "configurations"], "every address with every mask of both families, in every mode that shows a binary form",
  TEST + "no test looks at colours; some short prefixes showed a class whose bits were not marked.",
  ["src/cmds/show_net.rs", "src/console.rs"],
  [("choice of the colour of each bit", "src/cmds/show_net.rs: output_binary_ipv4_address, output_binary_ipv6_address"), ("class name", "src/cmds/show_net.rs: output_ipv4_class")],
  ["standard output with CLICOLOR_FORCE=1"]),
P("C24", "Enumeration of a network of any size starts at once in bounded memory",
  "However many addresses a network has, the enumerate mode prints the first of them without having computed the others, and the memory it needs does not grow with the number of addresses listed.",
  ["inputs"], "every network, those with up to 2^128 addresses included, and every moment of its listing",
  TEST + "they enumerate eight addresses at most; that memory does not grow is a property of every prefix of an execution too long to run.",
  ["src/cmds/enumerate.rs"],
  [("addresses computed one at a time", "src/cmds/enumerate.rs: NetworkIter"), ("each address printed before the next is computed", "src/cmds/enumerate.rs: enumerate")],
  ["the beginning of standard output and the size of the process"],
  technique="explicit-state exploration of the implementation: bounded prefixes of the executions of an enumeration, for an exhaustive family of network shapes, with limited address space, against an executable reference model",
  note="The unmodified binary lists each network of the families named in the evidence file; the prefix of its output within the bound is compared with an independent integer model. Address space is limited, growth of the resident set is read at two points of each long listing. " + TRUST),
P("C25", "Any address of a network names the same network",
  "A network may be given by any of its addresses together with its mask or prefix: standard output, standard error and exit status of every mode are the same for each of them, apart from the line in which the default mode repeats the address.",
  ["inputs"], "every network of both families, lopsided ones included, and every address in it, in every mode",
  TEST + "in nearly all of them the address given is already the first of its network, so a mode that forgets to clear host bits passes.",
  ["src/net.rs", "src/cmds/mod.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/minimize.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs"],
  [("host bits are cleared on construction", "src/net.rs: new_with_mask, new_with_prefix"), ("modes work on the network, not on the argument", "src/cmds/*.rs")],
  ["standard output, standard error and exit status of all modes"]),
P("C26", "The rules are the same in both families and everywhere",
  "If all addresses of an invocation lie in one block and are moved to the same offsets in another block of the same size, be it of the other family (prefixes grow or shrink by the difference), the addresses in the result move likewise and nothing else changes, as long as the result lies in the block; class names, binary forms and column widths aside.",
  ["inputs"], "every invocation of every mode and every pair of blocks of either family",
  TEST + "they use a few private or documentation addresses; nothing compares the two families, whose code is written twice in part, or different regions of the address space.",
  ["src/addr.rs", "src/net.rs", "src/cidr.rs", "src/bit_manip.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs", "src/cmds/minimize.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/show_net.rs"],
  [("modes generic over the address type", "src/cmds/*.rs; src/addr.rs: trait IpAddress"), ("arithmetic of each family", "src/addr.rs: Ipv4Address, Ipv6Address")],
  ["standard output and exit status of all modes"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of invocations and of the places they are moved to, the results being compared with each other"),
P("C27", "Resizing in steps is resizing at once, and can be undone",
  "Resizing a network and then each network shown to a further size, in the same direction, shows in all the same networks in the same order as resizing to that size at once; and the subnets of a network, resized back to its mask or to one with fewer network bits, each lead to the network that the original leads to.",
  ["inputs", "histories"], "every network and every pair of target masks, lopsided ones included, of both families",
  TEST + "each resizes once; that the steps compose is a relation between three runs.",
  ["src/cmds/resize.rs", "src/bit_manip.rs"],
  [("order-preserving placement of network bits", "src/cmds/resize.rs: resize_network; src/bit_manip.rs: unravel_address, weave_address")],
  ["standard output of chains of ripcalc --resize"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of two-step histories of invocations, outputs of one step being inputs of the next"),
P("C28", "A run has no effect but its output and takes no input",
  "In every mode and whatever the environment, a run changes nothing outside its process but its standard output and standard error: no file is created, written, renamed, removed or changed, no process started or signalled, no connection made, no setting of the terminal or descriptors changed; and nothing is taken from standard input.",
  ["inputs", "configurations"], "every invocation in every environment",
  TEST + "a test that calls a function sees its return value, not what else happens; the absence of effects quantifies over all executions.",
  ["src/main.rs", "src/console.rs", "src/cmds/mod.rs", "src/cmds/show_net.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs", "src/cmds/minimize.rs", "src/cmds/resize.rs", "src/cmds/split.rs"],
  [("input from the arguments only", "src/main.rs: do_main"), ("output by print macros and the console module only", "src/console.rs; src/cmds/*.rs")],
  ["system calls of the process; exit status, standard output and standard error with all other effects forbidden"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of invocations and surroundings, each executed under a monitor automaton over its system calls (a seccomp filter that ends the process at the first call with another effect)",
  note="Every invocation within the bounds listed in the evidence file runs with a system call filter (inject/confine.c) from the start of the process on, in the guarded server build or, for the list with surroundings and every few thousandth case, the unmodified binary; the result must be that of the unconfined run. Not seen: effects through memory that is shared, or by calls not in the filter's list (listed there); x86-64 Linux only. Outside those bounds nothing is claimed."),
P("C29", "The order of the host counts only reorders the slices",
  "Whatever the order in which the host counts of a split are given, the same blocks are handed out, counts get blocks of the same sizes, and the same networks remain unused; or the counts fit in none of the orders.",
  ["inputs"], "every CIDR network, every list of host counts and every permutation of it",
  TEST + "each list of counts is split in one order.",
  ["src/cmds/split.rs"],
  [("largest first, whatever the order of the request", "src/cmds/split.rs: split_subnet")],
  ["standard output of ripcalc --split"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of invocations and of the permutations of their arguments, the results being compared with each other"),
P("C30", "Colours are on where they are wanted, and each is the one that is named",
  "Escape sequences appear in what show, split, resize and the colour test print if CLICOLOR_FORCE is set (and not 0), or if standard output is a terminal whose TERM is not dumb while NO_COLOR is unset and CLICOLOR is not 0; otherwise, and always in the output of minimize, derange and enumerate, in the usage text and in diagnostics, there are none. They only choose the colour of text, the same wherever colours are on, and no line ends with one in effect. The colour test shows sixteen names in columns of twenty, each in its own colour.",
  ["inputs", "configurations"], "every invocation with every combination of these variables and every kind of standard streams",
  TEST + "tests run with one environment and never on a terminal; no test looks at escape sequences.",
  ["src/console.rs", "src/main.rs", "src/cmds/show_net.rs"],
  [("the one place where colours are written", "src/console.rs: write_in_color"), ("colour test", "src/main.rs: color_test")],
  ["standard output and standard error of processes on files, pipes and pseudo-terminals with CLICOLOR_FORCE, CLICOLOR, NO_COLOR and TERM set"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of surroundings (variables and terminals) and invocations, compared with a decision table and with the coloured and uncoloured reference runs"),
P("C31", "A message is about the first fault, names it, and stands in its place",
  "If several arguments are malformed, or one is so in several ways, the message is the one about the leftmost fault (host counts before the network, the network before the target size), whatever else is given; enumerate gives one message for each malformed network in their order, and, if both streams go the same way, between the results of its neighbours. A message repeats the argument that could not be read, or states the octet, group or prefix at fault, its position and the limit, and the reason is the same in every mode; derange says which of the two addresses is malformed.",
  ["inputs"], "every invocation with one or more malformed arguments at any place among valid ones",
  TEST + "tests look at a few error values of the address parser; no test looks at a message, or at two faults.",
  ["src/cmds/mod.rs", "src/addr.rs", "src/cmds/enumerate.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/show_net.rs", "src/cmds/minimize.rs"],
  [("errors and their texts", "src/cmds/mod.rs: ParseNetspecError; src/addr.rs: IpAddressParseError"), ("first fault ends the invocation", "src/cmds/mod.rs: parse_same_family_netspecs; src/cmds/show_net.rs: show_net")],
  ["standard error, and both streams in one file or pipe"],
  technique="explicit-state exploration of the implementation: exhaustive bounded enumeration of faults and of sequences of valid and malformed arguments, the messages being compared with that about the fault alone"),
P("C32", "Every address and network has one printed spelling",
  "Wherever ripcalc prints an address it is in the one spelling: IPv4 octets in decimal without leading zeros; IPv6 groups in lower case without leading zeros, the longest run of zero groups, the first of equally long ones, shortened. A network is printed as its base address with the prefix, or with the mask exactly if there is no prefix.",
  ["inputs"], "every address and network of both families, in every mode",
  TEST + "a few addresses are formatted; which run of zeros is shortened and the spelling in the modes is not tested.",
  ["src/addr.rs", "src/net.rs", "src/cmds/show_net.rs"],
  [("formatting of addresses", "src/addr.rs: Display of Ipv4Address and Ipv6Address"), ("formatting of networks", "src/net.rs: Display of IpNetwork")],
  ["standard output in all modes"]),
]
extra = os.path.join(V, "tools", "more_properties.py")
if os.path.exists(extra):
    exec(open(extra).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": p["hook"]}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks = []
for p in props:
    note = p["note"] or (BASE + (API if p["hook"] or p["id"] in ("C11",) else "") + TRUST)
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or EXPL, "level": p["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "--cfg ripcalc_mc (with --cfg ripcalc_mc_addr, ripcalc_mc_net and ripcalc_mc_bits inside the included server)",
               "enable": "RIPCALC_MC_SERVER=/verif/server/mc_server.rs cargo rustc --bin ripcalc -- --cfg ripcalc_mc --cfg ripcalc_mc_addr --cfg ripcalc_mc_net --cfg ripcalc_mc_bits (see build.sh)",
               "source_commits": ["abf8e212d074189be8739fc9286c64d4d24caabc"]},
     "checks": checks, "not_applicable": [],
     "notes": "build.sh builds everything from /repo's working tree; check.sh ID TIER runs one check; replays are written to build/replay/ID.sh. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
