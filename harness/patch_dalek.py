"""The real curve25519-dalek with its reduction mod the group order handed to the harness: an uninterpreted function whose
value on concrete arguments is the real reduction."""
import sys
p = sys.argv[1]
s = open(p).read()
a = "        let s_unreduced = Scalar { bytes };\n\n        // Then reduce mod the group order and return the reduced representative.\n        let s = s_unreduced.reduce();\n"
assert s.count(a) == 1
s = s.replace(a, """        extern "C" {
            fn harness_reduce(i: *const u8, o: *mut u8);
        }
        let mut s = Scalar { bytes };
        #[allow(unsafe_code)]
        unsafe {
            harness_reduce(bytes.as_ptr(), s.bytes.as_mut_ptr());
        }
""")
open(p, "w").write(s)
