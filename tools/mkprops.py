#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MARSH_T = ["tfhe/lwe_marshal.go", "tfhe/glwe_marshal.go", "tfhe/fft_glwe_marshal.go", "tfhe/encryptor_key_marshal.go",
           "tfhe/bootstrap_key_marshal.go", "tfhe/keyswitch_key_marshal.go"]
MARSH = MARSH_T + ["mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go", "mktfhe/bootstrap_key_marshal.go"]

p("S01", "Stored objects round-trip exactly through any stream",
  "Every key and ciphertext that can be written to a stream or marshalled to bytes reads back as an equal object, consuming and reporting exactly the announced number of bytes, whatever the shape of the object, however the stream splits the data into partial reads, whatever the receiving object held before, and whatever follows in the stream. Streaming and in-memory forms are byte-identical, equal objects have identical bytes, and several objects written back to back read back in order.",
  ["inputs", "histories", "fault_sequences"],
  "All serialisable types, all shapes (dimensions, ranks, levels, including one-element ones), all contents, all ways of cutting the stream into short reads, all previous contents and shapes of the receiver, all concatenations.",
  "The tests marshal one fixed-shape object of some types with MarshalBinary/UnmarshalBinary into a fresh receiver from a full buffer; they never read through a short-reading stream, into a used receiver, or two objects in sequence, and never look at the byte counts of the streaming calls.",
  MARSH, [("headers and chunked value loops", "headerWriteTo/valueWriteTo/headerReadFrom/valueReadFrom in each *_marshal.go"),
          ("byte count accounting", "WriteTo/ReadFrom in each *_marshal.go")],
  observe=["WriteTo/ReadFrom return values", "MarshalBinary/UnmarshalBinary", "ByteSize"])
p("S02", "A failed write is always reported and never miscounted",
  "When the destination of a write fails, writes short, or fills up at any byte, writing any key or ciphertext returns an error, the returned byte count equals the number of bytes the destination really accepted, and the accepted bytes are a prefix of the object's normal encoding. Success is never reported for an incompletely stored object, and the object remains intact so that a retry on a healthy destination stores it completely.",
  ["fault_sequences", "inputs"],
  "All serialisable types and shapes, a failure at every possible byte offset, of each kind: error with zero or partial progress, silent-looking short write with an error, full disk.",
  "No test ever gives WriteTo a destination that fails; the property quantifies over every failure offset.",
  MARSH, [("error and count propagation", "WriteTo, headerWriteTo, valueWriteTo in each *_marshal.go")],
  observe=["WriteTo return values", "bytes accepted by the destination"])
p("S03", "A truncated or failing source is never accepted as a complete object",
  "When the stored bytes of a key or ciphertext end early at any byte, or the source fails while being read, reading returns an error and a byte count equal to what was really consumed. The same receiving object can afterwards read a complete copy correctly.",
  ["fault_sequences", "crash_points", "inputs"],
  "All serialisable types and shapes, truncation or read error at every byte offset (a crash while the object was being stored, a torn file, a lost connection), combined with any short-read pattern, followed by a retry into the same receiver.",
  "No test reads a truncated object or from a failing source.",
  MARSH, [("short read detection", "io.ReadFull in headerReadFrom/valueReadFrom in each *_marshal.go"),
          ("error propagation", "ReadFrom, UnmarshalBinary in each *_marshal.go")],
  observe=["ReadFrom return values", "receiver after retry"])
p("S04", "Copies of keys, ciphertexts and tables are complete and independent",
  "Copy returns a value equal to the original in every part that shares no memory with it; CopyFrom makes the destination equal to the source, including the gadget parameters, whatever the destination held before; Clear zeroes every number and nothing else. Afterwards neither overwriting, clearing, reloading nor changing one object is ever visible in another, in any order and from any thread owning its objects. This holds for all keys, ciphertexts, plaintexts, lookup tables and polynomials of the single-key and the multi-key scheme.",
  ["histories", "schedules", "inputs"],
  "All value types with Copy and CopyFrom, all shapes and gadget parameters, all histories of copying, copying over, clearing, in-place changes and reloading from storage, with several threads copying from the same originals.",
  "The tests never call Copy, CopyFrom or Clear of a key or ciphertext and look at the result; that nothing is shared shows only in a later change of one of the two objects.",
  ["tfhe/lwe.go", "tfhe/glwe.go", "tfhe/fft_glwe.go", "tfhe/encryptor_key.go", "tfhe/bootstrap_key.go", "tfhe/keyswitch_key.go", "tfhe/bootstrap_lut.go", "mktfhe/lwe.go", "mktfhe/glwe.go", "mktfhe/fft_glwe.go", "mktfhe/bootstrap_key.go", "math/poly/poly.go"],
  [("value methods", "Copy, CopyFrom and Clear of every type in the files listed")],
  observe=["Copy/CopyFrom/Clear results", "all objects after every operation"])
p("K01", "Parallel generation of bootstrapping keys is as good as sequential",
  "For every schedule of its workers and every number of CPUs, generating bootstrapping or key-switching keys in parallel terminates, leaves no worker behind, does not disturb the generator, and returns a key of which every single component is a correct encryption, under the right key and with noise in the expected range, of the same secret material a sequential generation would encrypt. This holds for single-key and multi-key generators. There is no data race between the workers.",
  ["schedules", "configurations", "inputs"],
  "All interleavings of producer and workers, all CPU counts (1 to many, more or fewer than the work), all shapes (dimensions, ranks, gadget levels, including those where the work does not divide evenly), both integer widths.",
  "The tests call the parallel generators with one production-size parameter set on whatever CPUs and schedule the machine provides, and only check one gate evaluated with the result; an occasionally missing, duplicated or corrupted component need not show there.",
  ["tfhe/bootstrap_keygen.go", "tfhe/encryptor.go", "mktfhe/bootstrap_keygen.go", "tfhe/bootstrap_key.go"],
  [("worker pool over (i,j) jobs", "tfhe/bootstrap_keygen.go GenBlindRotateKeyParallel, GenDefaultKeySwitchKeyParallel"),
   ("per-worker encryptor copies", "tfhe/encryptor.go SafeCopy"),
   ("multi-key wrapper", "mktfhe/bootstrap_keygen.go")],
  observe=["returned keys", "goroutine termination"])
p("K02", "Parallel generation of automorphism-based keys is as good as sequential",
  "For every schedule of its workers and every number of CPUs, generating bootstrapping keys of the automorphism-based (FHEW-style) scheme and the automorphism keys of the levelled scheme terminates, leaves no worker behind, and returns keys of which every single component, including every automorphism key, is a correct encryption of the same secret material a sequential generation would encrypt. There is no data race between the workers.",
  ["schedules", "configurations", "inputs"],
  "All interleavings of producer and workers, all CPU counts, all window sizes and dimensions, both integer widths.",
  "The test generates one production-size key on the machine's own schedule and evaluates one message.",
  ["xtfhe/fhew_bootstrap_keygen.go", "xtfhe/fhew_enc.go", "xtfhe/bfv_keygen.go", "xtfhe/circuit_bootstrap_key.go"],
  [("worker pool over (i,j) jobs", "xtfhe/fhew_bootstrap_keygen.go"), ("automorphism key generation", "xtfhe/bfv_keygen.go, xtfhe/fhew_bootstrap_keygen.go")],
  observe=["returned keys", "goroutine termination"])

C_TXT = "All interleavings of any number of threads, each owning one copy (or the original), all operation mixes, all shared inputs, all parameter shapes, both integer widths, assembly and portable builds."
p("C01", "Copies of a single-key evaluator can be used concurrently",
  "When several threads each use their own safe copy of a single-key arithmetic or binary evaluator at the same time, on shared keys, tables and ciphertexts, every operation returns exactly what it returns when that thread runs alone. Shared inputs and keys are not modified, and no operation blocks, panics or fails to finish because of the others. There is no data race between the threads.",
  ["schedules", "programs", "configurations"], C_TXT,
  "No test uses SafeCopy, or runs two operations at once; a shared scratch buffer only shows under particular interleavings.",
  ["tfhe/evaluator.go", "tfhe/binary_evaluator.go", "tfhe/bootstrap.go", "tfhe/product.go", "tfhe/keyswitch.go", "tfhe/decomposer.go", "math/poly/poly_evaluator.go"],
  [("safe copies with private buffers", "SafeCopy in tfhe/evaluator.go, tfhe/binary_evaluator.go, tfhe/decomposer.go, math/poly/poly_evaluator.go")],
  observe=["results of public operations"])
p("C02", "Copies of an encryptor can be used concurrently",
  "When several threads each use their own safe copy of a secret-key, public-key or binary encryptor at the same time, everything they encrypt decrypts to what that thread encrypted with noise in the expected range, everything they decrypt or generate is correct, and no two of them ever produce the same randomness. Keys and other shared inputs are not modified, and no operation blocks, panics or fails to finish because of the others. There is no data race between the threads.",
  ["schedules", "programs", "configurations"], C_TXT,
  "No test uses SafeCopy of an encryptor or encrypts from two threads; a shared sampler or buffer only shows under particular interleavings.",
  ["tfhe/encryptor.go", "tfhe/encryptor_public.go", "tfhe/binary_encryptor.go", "tfhe/binary_encryptor_public.go", "math/csprng/gaussian_sampler.go"],
  [("safe copies with private buffers and samplers", "SafeCopy in tfhe/encryptor.go, tfhe/encryptor_public.go, tfhe/binary_encryptor.go")],
  observe=["decryptions", "masks of produced ciphertexts"])
p("C03", "Copies of multi-key objects can be used concurrently",
  "When several threads each use their own safe copy of a multi-key encryptor, public encryptor, decryptor, evaluator or binary variant at the same time, every deterministic operation returns exactly what it returns when the thread runs alone and every randomised one decrypts correctly. Shared keys and ciphertexts are not modified, and nothing blocks, panics or fails to finish because of the others. There is no data race between the threads.",
  ["schedules", "programs", "configurations"], C_TXT.replace("parameter shapes", "parameter shapes and party counts"),
  "No test uses SafeCopy of a multi-key object or runs two multi-key operations at once.",
  ["mktfhe/encryptor.go", "mktfhe/encryptor_public.go", "mktfhe/decryptor.go", "mktfhe/binary_decryptor.go", "mktfhe/evaluator.go", "mktfhe/binary_evaluator.go", "mktfhe/product.go"],
  [("safe copies with private buffers", "SafeCopy in mktfhe/*.go")], observe=["results of public operations"])
p("C04", "Copies of extension-scheme objects can be used concurrently",
  "When several threads each use their own safe copy of a levelled-arithmetic, circuit-bootstrapping, automorphism-bootstrapping, many-table or sanitisation object (or of a key generator of these) at the same time, every deterministic operation returns exactly what it returns when the thread runs alone and every randomised one is correct. Shared keys and ciphertexts are not modified, and nothing blocks, panics or fails to finish because of the others. There is no data race between the threads.",
  ["schedules", "programs", "configurations"], C_TXT,
  "No test uses SafeCopy of an extension object or runs two of their operations at once.",
  ["xtfhe/bfv_evaluator.go", "xtfhe/circuit_bootstrap.go", "xtfhe/fhew_evaluator.go", "xtfhe/fhew_enc.go", "xtfhe/manylut_evaluator.go", "xtfhe/sanitization.go", "xtfhe/bfv_keygen.go"],
  [("safe copies with private buffers", "SafeCopy in xtfhe/*.go")], observe=["results of public operations"])
p("C05", "Copies of the arithmetic building blocks can be used concurrently",
  "When several threads each use their own safe copy of a polynomial evaluator, gadget decomposer or transform helper at the same time on shared read-only inputs, every operation returns exactly what it returns when the thread runs alone, and shared inputs are not modified. There is no data race between the threads.",
  ["schedules", "programs", "configurations"], C_TXT,
  "No test runs two of these operations at once; package-level or shared tables and buffers only show under particular interleavings.",
  ["math/poly/poly_evaluator.go", "math/poly/poly_mul.go", "math/poly/fft.go", "math/poly/fft_ops.go", "tfhe/decomposer.go", "tfhe/glwe_ops.go", "tfhe/fft_glwe_conv.go"],
  [("safe copies with private buffers", "math/poly/poly_evaluator.go, tfhe/decomposer.go")], observe=["results of public operations"])
p("C06", "Parallel multi-key bootstrapping equals sequential bootstrapping",
  "For every schedule of the per-party threads, parallel multi-key bootstrapping terminates, leaves no thread behind, and returns exactly the ciphertext that sequential bootstrapping of the same input returns, for every set of participating parties and every table. Several callers may run it at the same time on their own evaluator copies, and inputs and keys are not modified. There is no data race between the threads.",
  ["schedules", "configurations", "histories"],
  "All interleavings of the party threads with each other and with concurrent callers, all party counts and participating subsets, all inputs and tables, repeated use of one evaluator.",
  "The tests run one parallel bootstrap per scheme on the machine's own schedule with every party present and compare decrypted bits only.",
  ["mktfhe/bootstrap.go", "mktfhe/evaluator.go", "mktfhe/binary_evaluator.go"],
  [("one thread per party, then sequential accumulation", "mktfhe/bootstrap.go BlindRotateParallelTo"),
   ("parallel gate variants", "mktfhe/binary_evaluator.go")], observe=["returned ciphertexts", "goroutine termination"])

H_TXT = "All sequences of operations on one long-lived object, all argument values and shapes, fresh, reused and input-aliasing destinations, both integer widths, assembly and portable builds."
p("H01", "A single-key evaluator does not remember what it was used for",
  "The result of an operation on a single-key arithmetic or binary evaluator depends only on its arguments and keys: it is the same on a long-used evaluator as on a fresh one, the same whether the destination is new, holds old contents, or is one of the inputs, and the returning and the writing-into forms of an operation agree. Operations modify nothing but their destination, and results returned earlier never change later.",
  ["histories", "programs", "inputs", "configurations"], H_TXT,
  "The tests use each operation once or a few times on one evaluator with a fresh destination and compare decrypted messages; leftovers in scratch buffers matter only after particular histories.",
  ["tfhe/evaluator.go", "tfhe/bootstrap.go", "tfhe/bootstrap_lut.go", "tfhe/product.go", "tfhe/keyswitch.go", "tfhe/lwe_ops.go", "tfhe/glwe_ops.go", "tfhe/fft_glwe_ops.go", "tfhe/fft_glwe_conv.go", "tfhe/binary_evaluator.go", "tfhe/decomposer.go", "math/poly/poly_ops.go"],
  [("reused scratch buffers", "evaluatorBuffer in tfhe/evaluator.go and its users"), ("writing-into forms", "all *To methods")],
  state=[("evaluator buffers", "scratch space that must be dead between operations")], observe=["results of public operations"])
p("H02", "An encryptor does not remember what it was used for",
  "Whatever a secret-key, public-key or binary encryptor was used for before and whatever the destination held, every encryption of every kind it produces decrypts to exactly the message given with noise in the expected range, every key it generates is correct, and decryption depends only on the ciphertext. Operations modify nothing but their destination, and results returned earlier never change later.",
  ["histories", "programs", "inputs", "configurations"], H_TXT,
  "The tests encrypt into fresh ciphertexts with a fresh encryptor, so leftovers in destinations and scratch buffers are never visible; public-key encryption of several kinds in sequence is not tested at all.",
  ["tfhe/encryptor.go", "tfhe/lwe_enc.go", "tfhe/glwe_enc.go", "tfhe/fft_glwe_enc.go", "tfhe/encryptor_public.go", "tfhe/lwe_enc_public.go", "tfhe/glwe_enc_public.go", "tfhe/fft_glwe_enc_public.go", "tfhe/binary_encryptor.go", "tfhe/encoder.go", "tfhe/keyswitch_keygen.go"],
  [("reused scratch buffers and destinations", "encryptorBuffer, publicEncryptorBuffer, *To and *Body methods")], observe=["decryptions"])
p("H03", "Multi-key objects do not remember what they were used for",
  "Whatever a multi-key encryptor, public encryptor, decryptor or evaluator was used for before, whichever parties took part, and whatever the destination held, every operation gives the result a fresh object gives (up to fresh randomness for encryptions, which decrypt correctly). Operations modify nothing but their destination, and results returned earlier never change later.",
  ["histories", "programs", "inputs", "configurations"], H_TXT + " All sequences of participating subsets and party indices.",
  "The tests use fresh objects and destinations with every party always present; leftovers of another party or of an earlier operation are never visible.",
  ["mktfhe/encryptor.go", "mktfhe/encryptor_public.go", "mktfhe/decryptor.go", "mktfhe/evaluator.go", "mktfhe/product.go", "mktfhe/bootstrap.go", "mktfhe/lwe_ops.go", "mktfhe/glwe_ops.go", "mktfhe/fft_glwe_ops.go", "mktfhe/fft_glwe_conv.go", "mktfhe/binary_evaluator.go"],
  [("reused scratch buffers", "evaluatorBuffer, encryptorBuffer, decryptorBuffer in mktfhe")], observe=["results of public operations"])
p("H04", "Extension-scheme objects do not remember what they were used for",
  "Whatever a levelled-arithmetic, circuit-bootstrapping, automorphism-bootstrapping or many-table evaluator was used for before and whatever the destination held, every operation gives exactly the result a fresh object gives, and the returning and writing-into forms agree; a sanitised ciphertext always decrypts to the original message. Operations modify nothing but their destination, and results returned earlier never change later.",
  ["histories", "programs", "inputs", "configurations"], H_TXT,
  "The tests run each extension operation once on a fresh evaluator.",
  ["xtfhe/bfv_evaluator.go", "xtfhe/circuit_bootstrap.go", "xtfhe/fhew_bootstrap.go", "xtfhe/manylut_bootstrap.go", "xtfhe/sanitization.go", "xtfhe/sanitization_sampler.go"],
  [("reused scratch buffers", "buffers in xtfhe evaluators")], observe=["results of public operations"])
p("H05", "A failed operation leaves evaluators and encryptors usable",
  "When an operation is abandoned half-way, because a table function supplied by the caller panics, the entropy source fails, or arguments are rejected, the objects involved, their copies and their keys give correct results for all later operations once the caller recovers. Nothing is left running or locked.",
  ["fault_sequences", "histories", "crash_points"],
  "All operations that can be interrupted, all points of interruption (each call of the table function, each entropy read), all later operation sequences.",
  "No test interrupts an operation.",
  ["tfhe/evaluator.go", "tfhe/bootstrap_lut.go", "tfhe/encryptor.go", "tfhe/encryptor_public.go", "mktfhe/evaluator.go", "mktfhe/decryptor.go", "xtfhe/manylut_bootstrap.go", "xtfhe/fhew_bootstrap.go"],
  [("scratch buffers and copies", "buffers re-initialised by each operation")], observe=["later results"])
p("R01", "Fresh randomness is never reused",
  "No two ciphertexts, public-key elements or key components ever produced share a mask, a noise pattern or a secret, however they were produced: by one object over its lifetime, by copies used in any interleaving, by separately created objects, or by parallel key generation. The only shared randomness is that explicitly derived from a caller-supplied seed.",
  ["histories", "schedules", "programs"],
  "All histories of key generations, encryptions and copies, in all interleavings, over every kind of ciphertext and key.",
  "No test compares the randomness of two outputs; reuse needs a particular history or schedule and still decrypts correctly.",
  ["math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go", "math/csprng/gaussian_sampler.go", "tfhe/encryptor.go", "tfhe/encryptor_public.go", "tfhe/encryptor_key.go", "mktfhe/encryptor.go", "xtfhe/sanitization.go"],
  [("buffered keystream per sampler", "math/csprng/uniform_sampler.go"), ("new samplers in copies", "SafeCopy in tfhe/encryptor.go and others")],
  observe=["masks and phases of outputs"])
p("R02", "Without entropy nothing secret is produced",
  "If the system entropy source fails at any request, the operation that needed it does not return normally: no key, sampler, encryptor or ciphertext built on missing, partial or predictable randomness is ever handed out. When the source recovers, newly created objects work and are fresh, and objects created before the failure are unaffected.",
  ["fault_sequences", "histories"],
  "A failure (error, or error after a partial read) at every entropy request of every constructor and copy, transient or persistent, at any point of a history.",
  "The tests never make the entropy source fail.",
  ["math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go", "math/csprng/gaussian_sampler.go", "tfhe/encryptor.go", "xtfhe/sanitization_sampler.go"],
  [("entropy request and panic on error", "math/csprng/uniform_sampler.go NewUniformSampler")], observe=["constructor outcomes"])
p("R03", "Seeded randomness is reproducible, and only then",
  "Two samplers created from the same seed yield the same stream, whatever else runs or ran in the process, however the stream is consumed (uniform and Gaussian values sample by sample or into vectors of any length, binary values by the same sequence of calls), and different seeds yield different streams. Likewise all parties of a multi-key deployment who share a seed derive the same common reference, so that what they produce independently works together, whatever the order and interleaving in which they join.",
  ["histories", "schedules", "inputs"],
  "All consumption patterns across internal buffer boundaries, all interleavings with other samplers, all seeds including empty and long ones, all join orders.",
  "The tests check moments of one sampler's distribution; they never compare two streams or cross the internal buffer in different ways.",
  ["math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go", "math/csprng/gaussian_sampler.go", "mktfhe/encryptor.go"],
  [("seeded keystream and buffer refill", "math/csprng/uniform_sampler.go Read, Sample"), ("common reference string", "mktfhe/encryptor.go")],
  observe=["sampled values", "cross-party operations"])
p("R04", "Secrets, masks, noise and samples have the stated distributions",
  "Whatever was done before, however many copies and threads are at work, and however the system delivered entropy, what is drawn at random follows the stated distribution in every component: secrets are uniform binary or block binary (FHEW secrets rounded Gaussian), masks are uniform over the whole torus, the noise in every part of every fresh ciphertext, gadget ciphertext, key-switching, bootstrapping, public and common-reference key (sequentially or in parallel made) is a centred Gaussian of exactly the standard deviation the parameters state for it, public-key encryption and re-randomisation draw masking polynomials and noise for every component from their distributions, and every sampler (uniform, below a bound, binary, block binary, rounded Gaussian, discrete Gaussian) returns the values it promises through each of its entry points, without bias, and all of them.",
  ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
  "All seeds and entropy, all sequences and interleavings of operations, all parameters and sampler arguments.",
  "The tests check two moments of one sampler; no test looks at the noise or masks inside a key or ciphertext, and decryption succeeds just as well when noise is missing.",
  ["math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go", "math/csprng/gaussian_sampler.go", "xtfhe/sanitization_sampler.go", "xtfhe/sanitization.go", "tfhe/encryptor.go", "tfhe/lwe_enc.go", "tfhe/glwe_enc.go", "tfhe/lwe_enc_public.go", "tfhe/glwe_enc_public.go", "tfhe/bootstrap_keygen.go", "mktfhe/bootstrap_keygen.go", "xtfhe/fhew_enc.go"],
  [("samplers", "math/csprng/*.go, xtfhe/sanitization_sampler.go"), ("noise and masks of encryption", "tfhe/lwe_enc.go, glwe_enc.go, *_public.go")],
  observe=["phase of fresh ciphertexts and key components under the secret key", "masks", "secret keys", "sampled values"])
p("E01", "A client gets correct results from a faulty single-key deployment",
  "A client that generates keys, stores them, sends evaluation keys and ciphertexts to servers over a faulty network and has them run arbitrary circuits of linear operations, key switches, look-up tables and gates obtains, once every request is answered, exactly the plaintext results. Crashes and restarts at any point (with keys and ciphertexts reloaded from storage), duplicated, reordered and truncated transfers and concurrent workers change nothing but when the answer arrives.",
  ["programs", "schedules", "crash_points", "fault_sequences", "configurations"],
  "All circuits, messages and look-up tables over the message space within the noise budget, all parameter shapes (either bootstrap order, any rank, extended tables, any block size), all crash points, all network schedules.",
  "The tests evaluate one or two operations per scheme in one process, with freshly generated in-memory keys and one parameter set.",
  ["tfhe/evaluator.go", "tfhe/bootstrap.go", "tfhe/bootstrap_lut.go", "tfhe/keyswitch.go", "tfhe/binary_evaluator.go", "tfhe/encoder.go", "tfhe/params.go", "tfhe/bootstrap_key_marshal.go", "tfhe/lwe_marshal.go", "tfhe/encryptor_public.go"],
  [("programmable bootstrapping", "tfhe/bootstrap.go"), ("look-up tables", "tfhe/bootstrap_lut.go"), ("storage and transfer of keys", "tfhe/*_marshal.go")],
  observe=["decrypted results at the client"])
p("E02", "Parties of a faulty multi-key deployment get correct joint results",
  "Parties that independently derive keys from a shared reference, register evaluation keys with servers in any order and at any time, and send ciphertexts over a faulty network obtain, once every request is answered, exactly the plaintext results of arbitrary joint circuits, for every subset of participants. Late, repeated or re-sent registrations, sparse sets of parties, crashes with reload from storage and decryption keys added one by one give the same results as everything being present from the start.",
  ["programs", "schedules", "crash_points", "fault_sequences", "configurations"],
  "All party counts and subsets, all registration orders and repetitions, all circuits within the noise budget, all crash points and network schedules.",
  "The tests run one gate or one table with every party registered up front in one process.",
  ["mktfhe/evaluator.go", "mktfhe/encryptor.go", "mktfhe/encryptor_public.go", "mktfhe/decryptor.go", "mktfhe/bootstrap.go", "mktfhe/product.go", "mktfhe/binary_evaluator.go", "mktfhe/bootstrap_key_marshal.go"],
  [("per-party key maps", "mktfhe/evaluator.go AddEvaluationKey, mktfhe/decryptor.go AddSecretKey"), ("hybrid product", "mktfhe/product.go")],
  observe=["decrypted results at the clients"])
p("E03", "Extension schemes give correct results in a faulty deployment",
  "Servers running levelled arithmetic on encrypted polynomials, circuit bootstrapping, automorphism-based bootstrapping, several tables at once, or sanitisation, with keys received over a faulty network, stored, reloaded after crashes and used by concurrent workers, return ciphertexts that decrypt to exactly the plaintext result of the requested program. Sanitised results also do not reveal which input ciphertext they came from by reusing its mask.",
  ["programs", "schedules", "crash_points", "fault_sequences", "configurations"],
  "All programs within the noise budget, all messages and tables, all shapes of the extension parameters, all crash points, network and worker schedules.",
  "The tests evaluate one operation per extension on one parameter set in one process.",
  ["xtfhe/bfv_evaluator.go", "xtfhe/circuit_bootstrap.go", "xtfhe/fhew_bootstrap.go", "xtfhe/manylut_bootstrap.go", "xtfhe/sanitization.go"],
  [("extension evaluators", "xtfhe/*.go")], observe=["decrypted results at the client"])

p("E04", "Every step of a long single-key computation stays within the predicted noise",
  "In any computation that applies any sequence of single-key evaluator operations (LWE, GLWE and gadget linear algebra, plaintext, constant and monomial products, rotations and permutations, gadget and external products, CMUX, key switching between keys, sample extraction, blind rotation and bootstrapping with tables of one or many times the polynomial rank, in the normal and the transformed domain) by several workers, each with its own copy of an evaluator, to ciphertexts from a common store, every intermediate result has the phase that operation promises: the plaintext function of the phases of its operands, up to the error implied by the noise of its operands, keys and gadget. This stays true whatever the depth and history: after other operations, after an operation that failed half-way, into fresh, reused or aliased destinations, and after a ciphertext, table or key was stored and loaded. Stored operands never change.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "All sequences and interleavings of operations, all ciphertexts reachable by them, all shapes of parameters (table longer than the rank, block sizes, sparse and dense keys, all gadget bases).",
  "The tests decrypt the result of single operations on fresh ciphertexts of small messages, which leaves slack that hides a wrong but small or a wrong but rounded-away term, and never compose operations or use tables longer than the rank with all rotations.",
  ["tfhe/lwe_ops.go", "tfhe/glwe_ops.go", "tfhe/fft_glwe_ops.go", "tfhe/product.go", "tfhe/keyswitch.go", "tfhe/bootstrap.go", "tfhe/bootstrap_lut.go", "tfhe/decomposer.go"],
  [("operations", "tfhe.Evaluator"), ("error bound", "harness session.go")], observe=["phase of every result under the secret key"])
p("E05", "Every step of a long multi-key computation stays within the predicted noise",
  "In any computation that applies any sequence of multi-key evaluator operations (linear algebra, plaintext and monomial products, permutations, external and hybrid products with one party's gadget ciphertexts and uni-encryptions, single-key to multi-key conversion, key switching, blind rotation, bootstrapping and gates) by several workers to ciphertexts from a common store, while parties join at different times, register or replace their evaluation keys, or stay absent, every intermediate result has the phase under the joint secret that the operation promises, up to the error implied by the noise of its operands and keys; parties that are absent contribute nothing. Decryptors and encryptors of the same sets of parties agree with that.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "All sequences and interleavings of operations, all sets of parties present and orders of joining, all ciphertexts reachable by them.",
  "The tests evaluate single operations with all parties present from the start.",
  ["mktfhe/lwe_ops.go", "mktfhe/glwe_ops.go", "mktfhe/fft_glwe_ops.go", "mktfhe/product.go", "mktfhe/bootstrap.go", "mktfhe/evaluator.go", "mktfhe/decryptor.go"],
  [("operations", "mktfhe.Evaluator"), ("error bound", "harness session2.go")], observe=["phase of every result under the joint secret key"])

p("E06", "Every step of an extension-scheme computation stays within predicted noise",
  "In any computation that applies any sequence of extension-scheme operations (leveled BFV products, relinearisation, keyed permutations and sample key switching; circuit bootstrapping to gadget ciphertexts, in levels and for many table values; FHEW-style blind rotation and bootstrapping; bootstrapping of several tables at once; sanitisation), mixed with the operations of the single-key evaluator they embed, by several workers each with its own evaluator, to ciphertexts from a common store, every intermediate result has the phase the operation promises: the stated function of the phases of its operands, up to the error implied by the noise of its operands, keys and gadget. This stays true whatever the depth and history: results of one operation feed any other, after other operations, after a failed one, and into fresh or reused destinations. Stored operands never change.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "All sequences and interleavings of operations, all ciphertexts reachable by them, all shapes of parameters (window sizes, table counts, message moduli, gadget bases, sparse and dense keys).",
  "The tests evaluate one operation of each scheme on fresh ciphertexts of small messages with one parameter set.",
  ["xtfhe/bfv_evaluator.go", "xtfhe/circuit_bootstrap.go", "xtfhe/fhew_bootstrap.go", "xtfhe/fhew_evaluator.go", "xtfhe/manylut_bootstrap.go", "xtfhe/sanitization.go"],
  [("operations", "xtfhe evaluators"), ("error bound", "harness session3.go")], observe=["phase of every result under the secret key"])

# not claimed: pure functions of their input
p("N01", "Transform-based polynomial products are exact up to the stated error",
  "For all polynomials within the supported degree and magnitude, transform-based multiplication differs from the exact negacyclic product by at most the error the scheme's noise budget allows.",
  ["inputs", "configurations"], "All polynomials, degrees and magnitudes.",
  "Tests compare a few random polynomials.", ["math/poly/fft.go", "math/poly/poly_mul.go", "math/poly/fft_ops.go"],
  [("transform and splitting", "math/poly/poly_mul.go")])
p("N02", "Assembly and portable implementations compute the same values",
  "Every vectorised routine returns the same value as its portable counterpart for all inputs and lengths, on every CPU feature set.",
  ["inputs", "configurations"], "All inputs, all lengths including tails, all CPU feature levels.",
  "Tests compare a few random vectors.", ["math/vec/asm_vec_amd64.go", "math/poly/asm_fft_amd64.go", "math/poly/asm_fold_amd64.go", "math/poly/asm_vec_cmplx_amd64.go", "tfhe/asm_decompose_amd64.go"],
  [("assembly kernels", "internal/asmgen and generated .s files")])
p("N03", "Default parameters meet their failure probability and security level",
  "With each named parameter set, decryption after any allowed operation fails with at most the stated probability and the best known attack costs at least the stated security level.",
  ["inputs", "configurations"], "All named parameter sets; a statement about probabilities around 2^-64 and about attack cost.",
  "No number of executions can reach events of that probability.", ["tfhe/params_list.go", "mktfhe/params_list.go", "xtfhe/manylut_params_list.go"],
  [("parameter literals and noise estimates", "params_list.go, params.go")])
p("N04", "Encoding and gadget decomposition are exact inverses within their rounding bound",
  "For all messages decode(encode(m)) = m, and for all values the signed digits of a gadget decomposition are in range and recompose to the value within half of the smallest gadget element.",
  ["inputs", "configurations"], "All messages, moduli, bases and levels.",
  "Tests decompose a few random values with one gadget.", ["tfhe/encoder.go", "tfhe/decomposer.go", "math/num/num.go"],
  [("rounding", "tfhe/decomposer.go, math/num/num.go")])
p("N06", "Invalid parameters are rejected and derived parameters are consistent",
  "Compiling a parameter literal either panics for an inconsistent literal or yields parameters whose derived values agree with the literal.",
  ["inputs", "configurations"], "All literals.", "Tests compile only the named literals.",
  ["tfhe/params.go", "mktfhe/params.go", "xtfhe/circuit_bootstrap_params.go", "xtfhe/manylut_params.go"], [("validation", "Compile in params.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, s)
print(len(P), "properties")
