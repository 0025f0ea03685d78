NA = {}
C["C01"] = (REPLAY, "Exhaustive in the model for up to 5-7 messages and tolerance 1-2; the real ratchet is bound by replayed behaviours with its own tolerance of 80. Ideal cryptography assumed.")
C["C02"] = (REPLAY, "As C01, with forged, damaged and replayed inputs at every point; acceptance of every message is probed on copies before and after. Ideal cryptography assumed.")
C["C03"] = (REPLAY, "As C01, with clock advances and saves; erasure is judged by what a ratchet reloaded from the saved state still decrypts.")
C["C04"] = (REPLAY, "Two sessions and an attacker holding all frames, exhaustive for small counts; the real KX endpoints are driven over a wire owned by the driver, including frame counters beyond 255 and 65535. Ideal authenticated encryption assumed.")
C["C05"] = (REPLAY, "Dolev-Yao attacker over up to 2x2 concurrent runs, checked exhaustively; the real handshake is driven with relayed, altered, crossed and replayed frames and against endpoints that deviate at every step. Ideal cryptography assumed.")
C["C12"] = (REPLAY + "; enumerated fault and crash injection (strace, RLIMIT_FSIZE) judged by the same specification", "Save protocol exhaustive over every failing or last step; the real Save is killed and made to fail at each of its system calls. A crash is the death of the process, not of the machine.")
C["C13"] = (REPLAY, "Symbolic terms in the model (ideal hash and signature), exhaustive over what an outsider can assemble from two identities; real identities are altered field by field, byte by byte and by exchanging fields, and signatures checked against other messages and keys.")
C["C14"] = (REPLAY, "Ideal authenticated encryption and key derivation; real blobs are altered in place, truncated at every length, extended and opened with other passphrases.")
C["C15"] = (REPLAY, "Exhaustive for 2-3 threads and depth 2-3, with liveness of the blocking pop; recorded concurrent histories of the real tag stacks are checked for linearisability against it, under the schedules the Go scheduler produces.")
C["C16"] = (REPLAY, "Exhaustive for three identities and four nicks; behaviours are replayed sequentially and concurrently, concurrent histories being checked for linearisability.")
C["C06"] = (REPLAY + "; fault and crash injection (strace) into the running server", "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Disconnects, restarts, kills and failing system calls at points chosen by TLC. A crash is the death of the process, not of the machine.")
C["C07"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Backlogs beyond the window, acknowledgements in any order, repeated and for tags that are not outstanding.")
C["C08"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Logins, takeovers, disable and enable run concurrently, under the schedules the machine produces.")
C["C09"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Policies, concurrent requests with one token, expired and malformed tokens, unusable databases, kills and restarts. Tokens are issued by the real zkservertoken, not concurrently with the server's use of its database.")
C["C10"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Concurrent uploads and pulls, restarts, unusable databases. Expiry is not waited for.")
C["C11"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Malformed bytes at every stage of a connection, floods without reading, and malformed administrative requests, next to clients that must be served as specified. Resource exhaustion by many connections is not tried.")
C["C22"] = (REPLAY, "Real zkserver processes are driven over TLS by several clients at a time; every recorded history is checked for being explained by the specification, with operations under way taking effect at any moment in between. Directories turned on and off across restarts, clashing nicks, lookups of absent and odd nicks.")

C["C17"] = (REPLAY + "; crash injection (strace and timed kills) into the running client", "The exchange between two clients, with a third party that forges and replays and clients that die at every step, is exhaustive in the model with liveness and six wrong variants that must fail. The real zkclient is driven by PIN and by lookup in both roles against contacts the driver plays, with altered, misnamed, replayed and stray messages, ended sessions and kills. Two users who begin with each other at the same moment, and a server that lies about who sent a message, are outside the property as decided.")
C["C19"] = (REPLAY + "; crash injection (strace and timed kills) into the running client", "Reception is exhaustive in the model for three files whose parts interleave and two deaths of the client, with liveness and three wrong variants that must fail. The real zkclient is sent files of all sizes by contacts the driver plays, whole and misbehaving, under plain and hostile names, and killed meanwhile; its scratch root outside the download area is compared. Files up to 40 kB incoming and 512 kB outgoing. Deaths of the process only, not of the machine.")
C["C20"] = (REPLAY, "The protocol between outgoing queue, sessions, acknowledgements and saved ratchet is exhaustive in the model for 2+2 messages and 2 lost sessions, with liveness and five wrong variants that must fail. The real zkclient runs on a terminal of its own against a driver that is its server and its contacts; sessions end at any moment, acknowledgements are withheld, contacts and strangers send what they should not. A contact's side is the real ratchet in the driver, not a second zkclient.")
C["C21"] = (REPLAY + "; crash injection (strace and timed kills) into the running client", "As C20 with up to 2 deaths of the process in the model; the real zkclient is killed at its system calls and at random moments while messages pass in both directions, then restarted. What was typed and not sent when the process died may be lost. Deaths of the process only, not of the machine.")
for _id in ("C18",):
    if _id not in C:
        NA[_id] = "The specification and driver for this part of the client are not built yet."
C["C23"] = (REPLAY, "Exhaustive in the model for two servers and two records; the real zkexport and zkimport are run on scratch roots with records that are whole, rewrapped, truncated, altered or not records, with every answer to the question, and killed on the way. Records are not authenticated: alterations of address, certificate and directory setting are left to the user, who compares fingerprints.")
