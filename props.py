import effects

TRUSTED = [
    "rustc's MIR construction and the mirdump driver (driver/)",
    "the abstract interpreter and its models of the standard library, memchr, regex, memmap and rayon (engine/)",
    "the harness of the property (harness/src)",
]
RULE = "Abstract interpretation of the monomorphised MIR of the entry points in the harness (relational linear domain over buffer contents, lengths and offsets, path partitioning, loops by inductive invariants): every assertion of the compiler (bounds, overflow, unwrap) and every verify() must be entailed on every path, and every reach()/verify() label of expected.json must be met. "


def A(feature, rule, **kw):
    return dict(feature=feature, roots=feature + "_", rule=RULE + rule, **kw)


def E(name, rule, **kw):
    return dict(
        roots=None,
        rule=rule,
        passes=[getattr(effects, name)],
        level="other",
        technique="effect analysis of MIR: whole-crate call sites and call graph (custom rustc driver)",
        note="No construct on the list of effects occurs in the code analysed. The list is finite and names functions of the standard library; what the dependencies do is trusted.",
        **kw,
    )


NA = {}
PROPS = {
    "C01": A("c01", "Entry points call the decoders and every accessor on an arbitrary byte slice."),
    "C02": A("c02", "The decoded entry is compared with the bytes it was decoded from."),
    "C03": A("c03", "Every optional part is compared with the position and width its flags imply."),
    "C04": A("c04", "All flag and message-info combinations are encoded and decoded."),
    "C05": A("c05", "The byte view of every header is compared with the DLT v1 layout."),
    "C06": A("c06", "The iterators run over an arbitrary buffer and an arbitrary message type; every step is compared with the definition of the next message."),
    "C07": A("c07", "The strict iterator runs over an arbitrary buffer; every step is compared with the message at the end of the previous one."),
    "C08": A("c08", "Both search iterators run over an arbitrary buffer; facts about the absence of markers and messages in position intervals are loop invariants."),
    "C09": A("c09", "Every search of the regular expression engine is monitored by a typestate automaton whose state is part of the analysed program."),
    "C10": A("c10", "Every search of the regular expression engine is monitored by a typestate automaton whose state is part of the analysed program."),
    "C11": A("c11", "The question which message contains a position is replaced by its definition (decided by C12); every partition stored is compared with the end of the one before."),
    "C12": A("c12", "The recursive call is replaced by the definition of a container (a relation on ranges); an arbitrary container is never missed, and each recursive question is about an earlier position."),
    "C13": A("c13", "Every iterator is drained, every loop needs a lexicographic ranking argument over the analysed states: its own and the draining one."),
    "C14": A("c14", "There is one file of arbitrary length and content and every operation of the operating system may fail; the result is compared with the file, byte for byte, and failures are counted."),
    "C16": A("c16", "The stages are connected to probes that number what they give out and check what they are given; counts of items are loop invariants. Of a split's map, the reducer of one arbitrary key is followed."),
    "C17": A("c17", "The stage runs next to the definition of runs on an arbitrary sequence with an uninterpreted relation."),
    "C18": A("c18", "The map is followed at one arbitrary key; the merge function is watched and compared with what is stored at that key."),
    "C19": A("c19", "The iterator and the stage are probes that number what they give out and check what they are given."),
    "C20": A("c20", "The whole program is followed on arbitrary arguments and input; every byte written is compared with the message expected for the chunk last read.", private=True),
    "C21": A("c21", "The whole program is followed on arbitrary arguments and input while every operation of the operating system may fail or do less than asked for; unusable arguments may be refused by a panic.", allowed=[["c21_refused", "panic"]], private=True),
    "C22": A("c22", "The whole program is followed for each command; the iterators over the messages are replaced by their contracts (arbitrary messages one behind the other, C06 and C09), the timestamp and the ECU id of a message by arbitrary fixed values that may be absent.", private=True, allowed=[["c22_histogram_payload_size", "panic", "Mul overflow"], ["c22_histogram_message_size", "panic", "Mul overflow"], ["c22_histogram_payload_size", "panic", "Add overflow"], ["c22_histogram_message_size", "panic", "Add overflow"]]),
    "C23": A("c23", "The parts of the file and what is made of each are arbitrary; the sums at an arbitrary but fixed key are compared with the result. rayon is replaced by what it promises: each item once, combined in order.", private=True),
    "C24": A("c24", "The messages of the file are arbitrary (C06 replaced by its contract); each is also given to the definition of the statistic, at an arbitrary but fixed key, and number and map are compared at the end.", private=True),
    "C27": A("c27", "The whole program is followed for each command, from the arguments to the end; the statistic is replaced by an arbitrary result, and the values handed to every line printed behind are compared with it, at an arbitrary but fixed key.", private=True, allowed=[["c27_refused_file", "panic"], ["c27_refused_access", "panic"], ["c27_refused_command", "panic"]] + [["c27_" + r, "panic", o + " overflow"] for r in ["payload_size", "message_size", "payload_size_alone", "message_size_alone", "hello_world_offsets", "lifecycles", "timestamps", "par_timestamps"] for o in ["Mul", "Add"]]),
    "C28": A("c28", "Every pair of message types is compared, and every three of them for transitivity; the results are held against a numbering of the types."),
    "C29": A("c29", "The runs of an arbitrary ECU are followed beside the program and compared with the periods that are merged; the union of any two periods is compared with their bounds; the number at an arbitrary duration is compared with the periods merging gives out.", private=True),
    "C15": E("changes_no_file", "Effect analysis of every body of the four crates: a function that creates, changes, renames or removes files, opens them for writing (with the constant true), starts programs or connects is reported where it is named."),
    "C25": E("depends_on_bytes_only", "Effect analysis of every body of matchit, rapiddlt and ripdlt: functions whose result depends on the time, the environment, the thread, random numbers or the order of a hash table, reads of variables that are shared between scans, and mutable statics are reported where they are named."),
    "C26": E("allocates_nothing", "Search through the monomorphised call graph from the entry points of the harness (standard library included, regular expression engine and substring search excluded, panics and printing set aside) for the allocator.", feature="c26"),
}
