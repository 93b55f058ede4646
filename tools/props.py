"""What the checks say about each property, beyond what they measure."""
import os, re
RULE = "cases are generated from a seed by the harness of the property (/verif/harness), which checks the property on the real crate and counts a case once it ran to its end"
TRUSTED = [
    "Verus and Z3; rustc's front end inside Verus",
    "the extraction (/verif/tools/vx): attributes, derives, visibility, trait bounds on AsRef<[u8]> and iterator arguments, and the desugaring of iterator chains, Option/Result combinators and matches!",
    "contracts assumed of dependencies and of core/std; the ones in this run's text are listed under contracts_taken_for_granted (fuel-types' bytes.rs and types.rs are verified from source except raw-pointer reinterpretation and derived comparisons)",
    "a byte slice or vector holds at most isize::MAX bytes; usize has 64 bits (global size_of usize == 8)",
]
N = lambda note, level="proof", **k: dict(level=level, note=note, **k)
PROPS = {
 "C01": N("encoders write tx_e(value) and decoders compute the inverse tx_d, for every wire type; the lemmas *_round and tx_round (induction over lists) say decoding an encoding followed by anything gives the value back"),
 "C02": N("each encoder's and size function's contract states the length of the value's encoding; the encoder's frame keeps the rest of the buffer; short buffers give an error"),
 "C03": N("decoders are total: no panic, overflow or out-of-range access for any bytes; each is the spec decoder, whose consumed length is within the input; allocations are preceded by a check against the bytes left", bounded=["size of allocations: concrete cases"]),
 "C04": N("every offset function against the position in the spec encoding; lemma tx_offsets places every field's encoding there"),
 "C05": N("every query's contract holds with any metadata that satisfies m_ok, precompute establishes m_ok and leaves the contents, Clone keeps it; decoded values carry none"),
 "C06": N("id() of every kind is sha256 of tx_e(strip(value)), strip being exactly the clearing of the malleable fields"),
 "C07": N("validation of scripts and creates: acceptance implies every limit (limits), and an error of this group implies that its limit is exceeded (why_limits)"),
 "C08": N("acceptance implies no repetition and full coverage (unrepeated, covered); an error of this group implies its reason (why_repeated)"),
 "C09": N("acceptance implies the pairing (paired), and an error of this group implies an unpaired contract input or output (why_unpaired)"),
 "C10": N("acceptance of a create is exactly vcommon and deployable; every error carries its reason (why_create)"),
 "C11": N("acceptance of a script is exactly vcommon and scripted, of a mint exactly minted; every error carries its reason"),
 "C12": N("signature checks succeed exactly when every input is authentic against txid; recovery and hashing of keys are functions of the dependency (uninterpreted)"),
 "C13": N("sign_inputs leaves exactly signed(tv, key); lemma sign_ok: the identifier stays and the key's inputs pass validation, given that keys can be recovered from signatures"),
 "C14": N("fee arithmetic against unbounded integers (fee_of, refund_of), metered bytes against the spec encoding"),
 "C15": N("initial_free_balances against unbounded sums per asset id (sum_in, sum_out, fee_tx)"),
 "C16": N("into_checked and into_checked_basic against acceptance, affordability and signatures; the wrapper's functions and conversions keep transaction, metadata and bitmask; the kind mismatch of the conversion is a precondition that checked values meet"),
 "C17": N("prepare_init_predicate and prepare_init_script against the fields they clear; lemma prep_same_id: the identifier stays"),
 "C18": N("the receipt encoder writes rec_e(value) and the decoder computes the inverse rec_d; lemma rec_round says decoding an encoding gives every said field back, rec_same that the fields left unsaid are only those the property excludes; sizes and short buffers as for every codec"),
 "C19": N("message identifiers, nonces and digests against SHA-256 (uninterpreted) of the concatenation; every receipt constructor and accessor"),
 "C20": N("code roots, state roots, contract identifiers and predicate owners against the Merkle and SHA-256 functions of the dependencies (uninterpreted)"),
 "C24": N("every constructor, accessor and kind test of inputs and outputs, every field getter and setter of transactions, and the derived lists"),
 "C21": N("formatting writes utxo_text/txp_text (over the assumed meaning of core::fmt's hexadecimal integers and the dependency's byte arrays), parsing computes utxo_parse/txp_parse for every text with no reachable panic; lemmas txp_text_parses and utxo_text_parses give the round trip"),
 "C22": N("every builder call adds exactly what it says to the described transaction; finalize* yields signed_all(prepared(described), keys in order); lemma signed_all_ok: an unsigned input with its own witness slot passes signature validation. Precondition: the described transaction fits in memory"),
 "C23": N("every with_* function, DEFAULT and tx_offset of ConsensusParameters against the record they must produce"),
}
def owners(V):
    o = {}
    d = os.path.join(V, "contracts")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".vc"): continue
        cur = None
        for l in open(os.path.join(d, f)):
            m = re.match(r"@fn (.*)", l)
            if m: cur = m.group(1).strip()
            m = re.match(r"@(?:props|ens) (.+)", l)
            if m and cur:
                for p in re.split(r"[,\s]+", m.group(1).strip()): o.setdefault(p, []).append(cur)
    return o
NOT = {
 "C25": "the JSON form is produced by serde's derive macros and parsed by serde_json: there is no function of the repository to put under contract, and generated code over strings and maps is outside the verifier's reach",
}
