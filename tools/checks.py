LIB = "Explores seeded cases, not all of them. The disc_riider library runs unmodified over a simulated disk (short transfers, interruptions, errors, torn and zero writes, full disk, crash, write-back loss). Trusts the harness's model of the content, its independent reference image generator and verifier, and the simulated disk."
PROG = "Explores seeded cases, not all of them. The iso-tool binary and the Python module (CPython) run unmodified as whole processes under a system-call simulator (preloaded library) that decides every open, read, write, seek, listing, stat and random-number result on the scratch files. Trusts that simulator, the harness's model and its independent reference image generator and verifier."
BOTH = "Explores seeded cases, not all of them. The library runs unmodified over a simulated disk; iso-tool and the Python module run unmodified as whole processes under a system-call simulator. Trusts both simulators, the harness's model and its independent reference image generator and verifier."
for i, note, t in [
 ("C01", LIB, "round trip against the model of the content"),
 ("C02", LIB, "stored image judged by an independent verifier"),
 ("C03", LIB, "read histories against a reference image generator"),
 ("C04", LIB, "read histories with transient and lasting source faults, then healed"),
 ("C05", BOTH, "faults at any point of a build; success implies a complete durable image"),
 ("C06", BOTH, "kill at any write, torn; whatever can still be opened must be right"),
 ("C07", LIB, "failing and retried partition adds, then an independent verifier"),
 ("C08", BOTH, "same content under two different schedules, listing orders and random streams gives identical bytes"),
 ("C09", PROG, "directory rebuilds with listing, stat, open, read and write faults and files changing under way"),
 ("C10", PROG, "extractions with source and destination faults, full disk and short discs"),
 ("C11", BOTH, "stored-byte damage and truncation of discs and metadata files"),
 ("C12", PROG, "hostile names; every attempted modification outside the destination is recorded and refused"),
 ("C13", LIB, "window histories against a reference stream"),
 ("C14", BOTH, "edit histories against a tree model, then rebuilt under two disks' schedules; the library's edited copy as a program"),
 ("C15", BOTH, "progress history judged against data handed over"),
 ("C16", BOTH, "step budget under lasting and transient faults and interruption storms; recovery once they stop"),
 ("C17", PROG, "extract, prune, rebuild cycles judged against the original disc"),
 ("C18", BOTH, "seeded hand-over between sessions at every I/O step and callback, nested sessions, raising and re-entering callbacks; equal to running alone"),
 ("C21", PROG, "sequences of reporting calls with source faults, judged against a model of the disc and of earlier calls"),
]:
    c(i, t, note)
