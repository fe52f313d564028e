#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


T = "The unit tests call a handful of library helpers; no test runs this program or these inputs at all."

prop("P01", "Tossing distributes echomail exactly once to every eligible link",
     "Every accepted echomail message leaves the tosser exactly once for each linked system of its area that is not the sender, not passive and not already listed as having seen it (plus once for the local system unless the area is pass-through), and for nobody else. "
     "Its area tag, control lines, text, tear line, origin line, names, subject, date and attributes arrive unchanged. "
     "The packets written are well-formed and addressed and protected for the system they go to.",
     ["inputs", "configurations", "histories"],
     "all sets of packets, areas, link lists, zones, passive and pass-through settings, packet size and open file limits",
     T, ["src/toss/ftntoss.c", "src/common/message.c", "src/common/packet.c", "src/common/outpkt.c", "src/common/areasbbs.c"],
     [("distribution", "src/toss/ftntoss.c toss_echomail / do_seenby"), ("message output", "src/common/message.c msg_put_msgbody"),
      ("packet output cache", "src/common/outpkt.c")], ["packets in the tosser's output directory"])
prop("P02", "Duplicate echomail is suppressed, and only duplicates are",
     "With duplicate checking on, a second copy of an echomail message (same area and message id; without an id, same origin, date, names and subject) is never distributed again, in the same run, in later runs or when it arrives by another link. "
     "A message that is not such a copy is never treated as one, and a copy rejected from a system not linked to the area does not block the genuine one.",
     ["histories", "inputs", "configurations"],
     "all sequences of tosser runs over packets with repeated, near-identical and distinct messages, with history expiry in between",
     T, ["src/toss/ftntoss.c", "src/common/histdb.c", "src/common/dbz.c", "src/common/crc32.c"],
     [("dupe check", "src/toss/ftntoss.c toss_echomail"), ("history database", "src/common/histdb.c, src/common/dbz.c")],
     ["output packets", "bad message packets"])
prop("P03", "SEEN-BY and PATH are complete, exact and stop circulating mail",
     "Forwarded echomail carries SEEN-BY lines naming everyone who was already named, the sender, the tosser and every system it is now sent to and no one else, and a PATH that is the received path followed by the sender (if missing) and the tosser, except where the configuration adds or deletes entries. "
     "Both are readable by the standard compressed notation, and with path checking a message that already passed through one of our addresses is not distributed.",
     ["inputs", "configurations"],
     "all incoming SEEN-BY/PATH lists (sorted or not, any length, points), link lists, zone gates and add/delete settings",
     "One unit test exercises node list parsing; nothing checks what the tosser writes for arbitrary lists.",
     ["src/toss/ftntoss.c", "src/common/node.c", "src/common/parsenode.c"],
     [("SEEN-BY", "src/toss/ftntoss.c do_seenby"), ("PATH", "src/toss/ftntoss.c do_path, do_check_path"), ("format", "src/common/node.c lon_print_sorted, lon_print_passive")])
prop("P04", "Insecure, routed and unknown echomail is kept aside, never distributed",
     "Echomail with a wrong packet password, from a system not linked to its area, in a packet not addressed to us, for an unknown area or without an origin is never passed to any link or to the local system. "
     "It is kept, with its text, in the bad-message store, unless the configuration asks for that kind to be killed, and everything else in the same packet is processed normally.",
     ["inputs", "configurations"],
     "all mixes of acceptable and unacceptable messages within and across packets, all password settings and Kill options",
     T, ["src/toss/ftntoss.c", "src/common/passwd.c"],
     [("checks", "src/toss/ftntoss.c toss_echomail"), ("bad store", "src/toss/ftntoss.c toss_bad")], ["toss/bad directory"])
prop("P05", "Netmail in transit is delivered once, addressed right and unaltered",
     "Every netmail message entering the tosser leaves exactly once (in the spool, the bad store or as one of the configured drops or copies), with its full four-dimensional origin and destination as given by the packet, message header and INTL/FMPT/TOPT lines after the configured remaps and rewrites. "
     "Names, subject, date, attributes, control lines and text are preserved and a Via line of ours is added at the end.",
     ["inputs", "configurations"],
     "all combinations of address control lines, packet kinds, remap/rewrite/spy rules, attributes and message texts",
     T, ["src/toss/ftntoss.c", "src/common/kludge.c", "src/common/message.c", "src/common/spyes.c"],
     [("netmail", "src/toss/ftntoss.c toss_netmail"), ("addressing", "src/common/kludge.c kludge_pt_intl"), ("remap/rewrite", "src/toss/ftntoss.c do_remap, do_rewrite")])
prop("P06", "Routing sends each message along the first applicable routing rule",
     "The router moves every message of every tossed packet exactly once into a packet whose destination and flavour are those given by the routing file for that message's destination, and nothing is lost, duplicated or reordered within a destination. "
     "Echomail goes to the packet's own destination or its routed target; crash and hold attributes are honoured as configured, and packets carry the right password and address for the system they are for.",
     ["inputs", "configurations"],
     "all routing files (route, noroute, hostroute, hubroute, boss route, change, sendto, xroute, wildcards and ranges) and message destinations",
     T, ["src/toss/ftnroute.c", "src/common/routing.c", "src/common/parsenode.c", "src/common/outpkt.c"],
     [("router", "src/toss/ftnroute.c"), ("routing file", "src/common/routing.c")])
prop("P07", "Packing puts every packet once into the outbound, ready for its system",
     "The packer turns every routed packet into exactly one outbound item for its destination: a flavoured packet file, or a member of an archive listed once in the destination's flow file with the flow file flavour matching. "
     "Unpacking what the flow files of a system list yields exactly the messages packed for it, earlier unsent bundles and flow entries are kept, and nothing is left behind or listed without existing.",
     ["inputs", "configurations", "histories"],
     "all packing rules (pack, rpack, fpack, dirpack, dirmove, noarc), flavours, zones, points, sizes and repeated runs with partly sent outbounds",
     T, ["src/toss/ftnpack.c", "src/common/binkley.c", "src/common/flo.c"],
     [("packer", "src/toss/ftnpack.c"), ("outbound names", "src/common/binkley.c"), ("flow files", "src/common/flo.c")])
prop("P08", "A system's busy flag keeps everybody else's hands off its outbound",
     "While a busy file of another process exists for a system, no program changes, creates or removes any outbound file of that system; the mail stays spooled and is packed once the flag is gone. "
     "Every program that changes a system's outbound holds the busy flag of that same system while it does so and removes its own flag, and only its own, afterwards.",
     ["histories", "schedules"],
     "all subsets of busy systems, flavours and zones, and all interleavings with another process that honours the flag",
     T, ["src/common/binkley.c", "src/toss/ftnpack.c", "src/util/ftnfattach.c", "src/tick/ftntick.c"],
     [("busy flags", "src/common/binkley.c bink_bsy_create/delete")])
prop("P09", "Program locks exclude each other and stale locks do not block forever",
     "Of any number of simultaneously started instances of a program that takes a lock, at most one is in its locked section at a time; the others fail or wait as asked and do their work afterwards. "
     "A lock left by a dead process is taken over, a live process's lock is never removed by anybody else.",
     ["schedules", "crash_points"],
     "all interleavings of starts, delays between lock steps, kills and stale lock files",
     "One unit test takes a lock once in one process; interleavings of processes are not run.",
     ["src/common/lock.c"], [("lock files", "src/common/lock.c lock_lockfile")])
prop("P10", "Concurrent programs never hand out the same number, name or message id",
     "Sequence numbers, spool file names and generated message ids handed out by any number of concurrently running programs sharing one spool are all different, and numbers handed out one after the other increase. "
     "No output file of one program is overwritten by another.",
     ["schedules"],
     "all interleavings of concurrent users of the same sequence file, including the very first use and unreadable content",
     "Unit tests are single-process.", ["src/common/sequencer.c", "src/common/packet.c", "src/common/msgid.c"],
     [("sequencer", "src/common/sequencer.c"), ("packet names", "src/common/packet.c pkt_newname")])
prop("P11", "A program killed at any point loses no message",
     "If the tosser, router, packer or gateway is killed at any point and run again, every message that was in its input is afterwards still present at least once in its input, output or quarantine store, and no temporary or half-written packet is taken for a finished one.",
     ["crash_points"],
     "every point at which the program changes the file system or writes to a file",
     "No test kills anything.", ["src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/common/outpkt.c", "src/common/packet.c", "src/gate/ftn2rfc.c", "src/gate/rfc2ftn.c"],
     [("input removal", "unlink of input packets"), ("temporary names", "src/common/packet.c pkt_create/pkt_close")])
prop("P12", "A full disk or failing file operation loses no message",
     "When writing, closing, renaming, removing or creating any file fails, the tosser, router, packer and gateway do not discard the input they could not store: every message is afterwards still present in the input, output or quarantine. "
     "The failure is reported in the log or by the exit status, and no truncated packet is left under a name that marks it as finished.",
     ["fault_sequences"],
     "every failing write/flush/close/rename/open, with no-space and I/O errors, at every position",
     "No test injects faults.", ["src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/common/outpkt.c", "src/gate/rfc2ftn.c", "src/common/histdb.c"],
     [("packet close", "src/common/packet.c pkt_close"), ("output", "src/common/outpkt.c outpkt_close")])
prop("P13", "No packet, however malformed, corrupts memory or hangs a program",
     "For every byte sequence in a packet file each program that reads packets finishes in bounded time without invalid memory access, undefined behaviour or use of uninitialised data. "
     "A malformed packet is set aside or reported and does not prevent the other packets from being processed.",
     ["inputs"], "all byte sequences: truncated, mutated, oversized, unterminated, adversarial control lines",
     "Tests feed a few well-formed strings.", ["src/common/packet.c", "src/common/message.c", "src/common/kludge.c", "src/toss/ftntoss.c", "src/gate/ftn2rfc.c", "src/util/pktdebug.c"],
     [("packet reader", "src/common/packet.c"), ("body reader", "src/common/message.c")])
prop("P14", "No mail or news article, however malformed, corrupts memory or hangs",
     "For every byte sequence given to the Internet-to-FTN gateway as a message or news batch it finishes in bounded time without invalid memory access, undefined behaviour or use of uninitialised data. "
     "It either converts the message or exits with an error.",
     ["inputs"], "all header and body byte sequences: MIME structures, encoded words, addresses, dates, lengths, batches",
     "Tests feed a few well-formed strings.", ["src/gate/rfc2ftn.c", "src/common/mime.c", "src/common/rfcheader.c", "src/common/rfcaddr.c", "src/common/charset.c", "src/common/parsedate.y"],
     [("gateway", "src/gate/rfc2ftn.c"), ("MIME", "src/common/mime.c")])
prop("P15", "No TIC file, area manager request or configuration text corrupts memory",
     "For every content of TIC files, area manager requests and of configuration and routing files, the programs reading them finish in bounded time without invalid memory access, undefined behaviour or use of uninitialised data.",
     ["inputs", "configurations"], "all byte sequences in TIC files, request messages and each configuration file",
     "Tests feed a few well-formed strings.", ["src/common/tick.c", "src/tick/ftntick.c", "src/areafix/areafix.c", "src/common/config.c", "src/common/areasbbs.c", "src/common/routing.c", "src/common/passwd.c"],
     [("TIC reader", "src/common/tick.c"), ("requests", "src/areafix/areafix.c")])
prop("P16", "Internet messages keep their text when gated to FTN",
     "The text of a gated mail or article arrives in FTN completely, in order and with every character representable in the target charset intact, whatever transfer encoding, charset, line lengths or multipart structure it came in; long messages are split into numbered parts that together contain every line once. "
     "Lines that FTN software would take for control information do not act as such.",
     ["inputs", "configurations"], "all bodies, encodings (7bit, 8bit, quoted-printable, base64), charsets, header encodings and size limits",
     "Unit tests check a few encoded strings, none the converted message.", ["src/gate/rfc2ftn.c", "src/common/mime.c", "src/common/charset.c"],
     [("decoding", "src/common/mime.c"), ("splitting", "src/gate/rfc2ftn.c snd_message")])
prop("P17", "Gated messages get correct FTN addresses and unforgeable control lines",
     "A message gated to FTN is addressed to exactly the node, point and name its recipient address denotes (with aliases and configured hosts) and comes from our address with the sender's name; its INTL/FMPT/TOPT, MSGID, origin and area lines are well-formed and agree with it. "
     "Other than through the documented pass-through headers (X-FTN-Kludge, X-FTN-Tearline, X-Flags), no header or body content supplied by the Internet side can add, replace or end FTN control information or message fields.",
     ["inputs", "configurations"], "all addresses, names, subjects and header contents including control characters and overlong fields",
     T, ["src/gate/rfc2ftn.c", "src/common/rfcaddr.c", "src/common/address.c", "src/common/msgid.c"],
     [("addressing", "src/gate/rfc2ftn.c rfc_parse"), ("control lines", "src/gate/rfc2ftn.c snd_message")])
prop("P18", "Every recipient and every gated newsgroup gets a message exactly once",
     "A mail is gated once for each FTN recipient and none other, a news article once for each configured area among its newsgroups, and to no other area; with a news batch every article is treated on its own. "
     "Articles and mails over the configured limits or excluded by configuration are refused, never gated in part.",
     ["inputs", "configurations"], "all recipient lists, newsgroup lists, area configurations, limits and batches",
     T, ["src/gate/rfc2ftn.c", "src/common/areas.c", "src/common/active.c"],
     [("recipients", "src/gate/rfc2ftn.c"), ("news", "src/gate/rfc2ftn.c snd_mail / main")])
prop("P19", "FTN netmail reaches the right Internet user once, or is bounced or kept",
     "Each netmail addressed to the gateway becomes exactly one mail whose envelope and headers name the user the configuration and To lines denote, with sender, subject, date and text intact and readable by a MIME reader in the charset declared; or it is bounced to its sender, or stays kept as undeliverable. "
     "No message of the packet is lost, duplicated or mixed with another.",
     ["inputs", "configurations"], "all netmail names, addresses, texts, charsets and gateway settings",
     T, ["src/gate/ftn2rfc.c", "src/gate/ftnmail.c", "src/common/mime.c", "src/common/charset.c", "src/common/aliases.c"],
     [("gateway", "src/gate/ftn2rfc.c unpack"), ("bounce", "src/common/bounce.c")])
prop("P20", "FTN echomail becomes correctly framed articles in the right newsgroup",
     "Each echomail message of a configured area becomes exactly one article in that area's newsgroup (unknown areas go where the configuration says or are kept), with author, subject, date, origin and text intact and readable in the declared charset. "
     "Batch framing is byte exact, so that a batch reader recovers every article and nothing else, whatever the messages contain.",
     ["inputs", "configurations"], "all echomail texts, areas, charsets and batch sizes",
     T, ["src/gate/ftn2rfc.c", "src/common/mail.c", "src/common/areas.c"],
     [("news output", "src/gate/ftn2rfc.c unpack"), ("batch", "src/common/mail.c")])
prop("P21", "Message identities and replies survive gating in both directions",
     "Gating assigns identities as a function of the message: equal FTN ids give equal Internet ids, different ids give different ones, and a message gated across and back keeps its original identity. "
     "A reply is linked to the id its parent was given on the same side, in both directions.",
     ["inputs", "histories"], "all MSGID/REPLY and Message-ID/References/In-Reply-To values, both gateways, with and without ids",
     "Unit tests check the conversion of a few ids.", ["src/common/msgid.c", "src/gate/ftn2rfc.c", "src/gate/rfc2ftn.c"],
     [("id mapping", "src/common/msgid.c")])
prop("P22", "FTN messages cannot inject Internet header lines or envelope recipients",
     "Whatever names, subjects, addresses and control lines an FTN message has, the Internet message made from it has only header lines the gateway generated, each well-formed and without bare control characters, exactly one header/body boundary before the text, and no recipients, newsgroups or control headers beyond the configured ones.",
     ["inputs"], "all byte sequences in every FTN header field and control line",
     T, ["src/gate/ftn2rfc.c", "src/common/mime.c", "src/common/address.c", "src/common/message.c"],
     [("headers", "src/gate/ftn2rfc.c unpack")])
prop("P23", "Only authorised nodes change subscriptions, and only their own",
     "A request to the area or file area manager changes subscriptions, areas or passwords only if it comes from a listed node with that node's correct password and its level, key and zone permit the area. "
     "It never changes anything about another node, and the answer goes to the requesting node only; the lists in it do not show areas that node has no access to (answers about a single area may repeat the name asked for).",
     ["inputs", "configurations"], "all senders, passwords, commands, levels, keys, zones and wildcards",
     T, ["src/areafix/areafix.c", "src/areafix/ftnafpkt.c", "src/common/passwd.c"],
     [("authorisation", "src/areafix/areafix.c areafix_auth_check")])
prop("P24", "Subscription commands do exactly what they say and preserve the rest",
     "After processing a request the area list equals the one obtained by applying its commands in order: subscribe, unsubscribe, wildcards, pause, resume, limits, while every other area, node, option, the leading comment line and the order of lines is unchanged (the node list behind the uplinks of an area is kept sorted). "
     "The lists sent in reply agree with the area list, every refused request is answered and long answers continue in further messages without loss, and reloading a written list gives the same list.",
     ["inputs", "configurations", "histories"], "all area lists with all options and all sequences of commands",
     T, ["src/areafix/areafix.c", "src/common/areasbbs.c"],
     [("commands", "src/areafix/areafix.c"), ("area list", "src/common/areasbbs.c")])
prop("P25", "Files in file areas are stored once and sent to every subscriber once",
     "A verified incoming file is stored intact in its area's directory with its description and announced in that area's index, and is sent with a correct description file (area, file, size, CRC, path, seen-by, password) to each subscriber that is not the sender, not passive, not one of the uplinks at the head of the list (area option -u) and has not seen it, exactly once and to nobody else. "
     "Duplicate announcements are not distributed again, and a replaced file is only the one named.",
     ["inputs", "configurations", "histories"], "all file areas, subscriber lists, TIC contents and histories, incoming and locally hatched",
     T, ["src/tick/ftntick.c", "src/tick/ftnhatch.c", "src/common/tick.c"],
     [("distribution", "src/tick/ftntick.c process_tic, do_seenby"), ("description file", "src/common/tick.c tick_put")])
prop("P26", "Unverified files are rejected and no file name leaves its directory",
     "A file announcement from a system not subscribed to the area, with a wrong password, wrong size or checksum (its test is a configure option, on by default), for an unknown area or for a missing file is not distributed or stored, and the files stay available for inspection or retry. "
     "Whatever names the announcement contains, no file outside the inbound, area, replaced, temporary and outbound directories is created, changed, moved or removed.",
     ["inputs", "configurations"], "all announcement contents including path separators and parent directories in every field",
     T, ["src/tick/ftntick.c", "src/common/tick.c"],
     [("verification", "src/tick/ftntick.c process_tic, check_file"), ("names", "src/tick/ftntick.c")])
prop("P27", "History expiry removes exactly the old entries and keeps the rest usable",
     "Expiry keeps every history entry younger than the configured age and drops the others, for every history size and content, and afterwards look-ups find exactly the kept entries. "
     "If it cannot complete, the previous history stays in use.",
     ["histories", "configurations", "fault_sequences"], "all history contents, ages and sizes, message and file histories",
     T, ["src/toss/ftnexpire.c", "src/common/histdb.c", "src/common/dbz.c"],
     [("expiry", "src/toss/ftnexpire.c do_expire"), ("database", "src/common/dbz.c")])
prop("P28", "Configuration files mean the same to every program",
     "Keywords are matched without regard to case, included files act where they stand (in every configuration file but areas.bbs), comments, blank lines and line ends mean nothing, quoting and path abbreviations work as documented, environment variables override path settings, and the first or every matching entry is used as documented. "
     "All programs act alike on equivalent files, and a malformed or overlong line affects nothing but itself.",
     ["configurations"], "all configuration files: includes, nesting, order, quoting, abbreviations, malformed lines, environment",
     "Unit tests cover single lookups only.", ["src/common/config.c", "src/util/confval.c"],
     [("configuration", "src/common/config.c")])
prop("P29", "Dates and times survive conversion",
     "A message's date and time denote the same instant (or the same local time where the format has no zone) before and after conversion in either direction, for every representable date, zone and leap day. "
     "An unreadable date is replaced by the time of the run: always a valid date, never a malformed field. Times the programs write themselves (Via lines, trace headers) denote the time of the run.",
     ["inputs"], "all dates 1980-2069 in every supported format, all zone offsets and time zone settings",
     "Unit tests cover a few dates.", ["src/common/parsedate.y", "src/common/date.c", "src/common/gettime.c", "src/common/packet.c"],
     [("parsing", "src/common/parsedate.y"), ("printing", "src/common/date.c")])
prop("P30", "Attached files are queued once for the right system and kept intact",
     "Attaching or hatching a file queues exactly that file for exactly the given systems in the right flow file with the asked flavour, without disturbing or duplicating existing entries; the listing tools report exactly what is queued or in a packet and change nothing; executing a flow file runs the command once per unsent entry, then deletes, truncates or keeps the file as its entry says, and the flow file goes only when everything was done. ",
     ["inputs", "histories"], "all file names, systems, flavours and prior flow file contents",
     T, ["src/util/ftnfattach.c", "src/util/ftnflo.c", "src/common/flo.c", "src/common/binkley.c"],
     [("attach", "src/util/ftnfattach.c"), ("flow files", "src/common/flo.c")])

prop("P31", "Area lists are maintained as asked, new areas made only by those allowed",
     "The maintenance commands delete, expire, subscribe again and list exactly the areas they are meant for, send each request to the right uplink's robot and each notification to the member concerned, leave every other area unchanged, and do nothing at all with the no-action option. "
     "Mail for an unknown area creates it only if its sender may create areas and neither its name nor its characters are forbidden, with the configured options and members, once, recorded in the creation log, and the message then goes to its members; otherwise it is set aside.",
     ["inputs", "configurations"], "all area lists, ages, states and uplinks, and all mail for unknown areas from all kinds of senders",
     T, ["src/areafix/ftnafutil.c", "src/areafix/areafix.c", "src/toss/ftntoss.c"],
     [("maintenance", "src/areafix/ftnafutil.c do_areasbbs"), ("creation", "src/areafix/areafix.c cmd_new"), ("requests", "src/areafix/areafix.c send_request")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
