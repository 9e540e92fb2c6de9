"""Which functions, configurations and analyses decide each property."""
import equivcheck
import lint
import progress
import safety
import zerocopy

CS = ["character_sets::" + x for x in ("is_wsp", "is_vchar", "is_alpha", "is_digit", "is_ctext", "is_qtext", "is_dtext", "is_atext", "is_ftext", "is_text", "special", "tspecial", "digit", "two_digits")]
ENC = ["mime::encoded_headers::" + x for x in ("charset", "encoding", "encoded_text", "especials")]

MF = "mime::mime_fields::"
PE = "mime::percent_encoding::"
EN = "mime::entity::"
TRACE = ["fields::" + x for x in ("trace", "received", "return_path", "resent_date", "resent_from", "resent_sender", "resent_to", "resent_cc", "resent_bcc", "resent_message_id")]
OWNED = ["mime::%s::into_owned" % x for x in ("ContentTransferEncoding", "ContentType", "Disposition", "DispositionType")] + [EN + "header_part_owned"]


def eq(pid, roots, configs=("A",), **kw):
    return lambda: equivcheck.run(pid, roots, configs, **kw)


CHECKS = {
    "C01": lambda: safety.run("C01"),
    "C02": lambda: safety.run("C02"),
    "C03": lambda: safety.run("C03"),
    "C04": lambda: progress.run("C04"),
    "C05": eq("C05", CS + ENC + ["time::day"]),
    "C06": eq("C06", ["whitespaces::cfws", "whitespaces::fws", "whitespaces::comment", "whitespaces::ccontent"]),
    "C07": eq("C07", ["quoted_string::quoted_string", "quoted_string::quoted_pair"]),
    "C08": eq("C08", ["common::" + x for x in ("atom", "dot_atom", "dot_atom_text", "word", "phrase", "unstructured", "mime_unstructured")], ("A", "B", "C")),
    "C09": eq("C09", ["address::" + x for x in ("address_list", "mailbox_list", "address", "mailbox", "group", "addr_spec", "angle_addr", "name_addr", "domain", "local_part")], ("A", "B", "C")),
    "C10": eq("C10", ["address::message_id", "fields::in_reply_to", "fields::references", "fields::message_id", "mime::mime_fields::content_id"], ("A", "B")),
    "C11": eq("C11", ["time::date_time"]),
    "C12": eq("C12", ["fields::fields"], ("A", "B"), only=lambda f: f.startswith("fields::") or f in ("character_sets::is_ftext", "common::unstructured", "common::mime_unstructured")),
    "C13": eq("C13", TRACE + ["fields::fields"], ("A", "B"), only=lambda f: f in TRACE or f == "fields::fields" or f in ("address::angle_addr", "address::addr_spec", "address::domain", "time::date_time", "common::word")),
    "C14": eq("C14", ["email::Email::parse", "email::Email as std::convert::TryFrom<&[u8]>>::try_from"], ("A", "B"), only=lambda f: f.startswith("email::") or f.startswith("fields::fields")),
    "C15": eq("C15", ["message::parse_message", "message::body", "message::check_line"], ("A", "B"), only=lambda f: f.startswith("message::") or f == "character_sets::is_text"),
    "C16": eq("C16", [MF + x for x in ("mime_version", "content_type", "content_transfer_encoding", "content_disposition", "content_description", "content_id")], only=lambda f: f.startswith(MF) or f in ("common::lowercase", "character_sets::tspecial")),
    "C17": eq("C17", [MF + "parameter", PE + "decode_parameter", PE + "collect_parameters"], only=lambda f: f.startswith(PE) or f in (MF + "parameter", MF + "token", "common::lowercase")),
    "C18": eq("C18", ["mime::encoded_headers::encoded_word"]),
    "C19": eq("C19", ["mime::encoded_headers::encoded_word", EN + "entity", EN + "decode_value", PE + "decode_parameter"], only=lambda f: f in (EN + "entity", "mime::encoded_headers::encoded_word", EN + "decode_value", PE + "decode_parameter")),
    "C20": eq("C20", ["mime::base64::decode_base64", "mime::base64::encode_base64"]),
    "C21": eq("C21", ["mime::quoted_printables::decode_qp", "mime::quoted_printables::decode_header_qp"]),
    "C22": eq("C22", ["mime::multipart::" + x for x in ("parse_multipart", "before_boundary", "before_closing_boundary", "before_boundary_idx", "before_closing_boundary_idx")], only=lambda f: f.startswith("mime::multipart::")),
    "C23": eq("C23", [EN + x for x in ("entity", "raw_entity", "header_part", "header_part_owned", "decode_value")] + ["mime::RawEntity::parse", "mime::ContentType::is_composite_type", "email::Email::parse"],
              only=lambda f: f.startswith(EN) or f in ("mime::RawEntity::parse", "mime::ContentType::is_composite_type", "email::Email::parse", "fields::unknown")),
    "C24": eq("C24", OWNED, only=lambda f: f in OWNED or f in (PE + "decode_parameter", PE + "collect_parameters")),
    "C25": lint.c25,
    "C26": lambda: zerocopy.run("C26"),
    "C27": lint.c27,
    "C28": lint.c28,
}

EQ_T = "relational abstract interpretation of MIR (crate against reference), partitioned by path"
EQ_N = ("Each function is interpreted together with its counterpart in /verif/spec over one symbolic input; a disagreement on any path is a violation, reported with the path condition. "
        "Functions whose comparison also closes with widening are equal for inputs of any length, the others on all paths within the loop bound given in the evidence. "
        "Trusts the reference, the models of std functions, and rustc's MIR.")
META = {}
for _i in CHECKS:
    META.setdefault(_i, {"technique": EQ_T, "level": "translation_validation", "note": EQ_N})
SAFE_T = "abstract interpretation of MIR with proof obligations, partitioned by path"
SAFE_N = ("Obligations are decided on every path of every function over symbolic arguments; scanning loops are summarised exactly, other loops are followed for two rounds past the first, "
          "and closed by invariants where that is possible (any_length in the evidence). Trusts the models of std functions and rustc's MIR.")
for _i in ("C01", "C02", "C03"):
    META[_i] = {"technique": SAFE_T, "level": "other", "note": SAFE_N}
META["C04"] = {"technique": "call-graph cycle detection; round-to-round comparison of loop states in an abstract interpretation of MIR", "level": "other",
               "note": "A round that leaves everything the exit depends on unchanged is a violation; callees consume at least what their own analysis shows. Rounds compared are the first ones past the first; std is trusted to end."}
META["C26"] = {"technique": "value-provenance analysis on MIR: owned results traced to contiguous stretches of the input", "level": "other",
               "note": "Owned values among the results of each function are traced to their source; the two joiners are held to their contract on every path. Decoders and the owned forms copy by design."}
META["C25"] = {"technique": "cargo check over feature sets; relational abstract interpretation of MIR in reduced feature sets", "level": "other", "note": "Compiling a feature set is decided by rustc. Disabled headers: the dispatcher and the email parser equal the reference with each header's feature off, on all paths within the loop bound."}
META["C27"] = {"technique": "effect scan over type-resolved MIR; Send/Sync type-level witnesses", "level": "other", "note": "No reachable function of the crate or of textcode has an effect outside its arguments; trusts the standard library outside the denied modules."}
META["C28"] = {"technique": "compile-fail witnesses with compiling twins; lifetime rule on raw-pointer references in MIR", "level": "other", "note": "The borrow checker rejects each listed misuse; raw pointers give no lifetime the arguments lack. Misuses not listed are covered only by the lifetime rule."}
NOT_APPLICABLE = {}
