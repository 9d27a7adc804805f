SPECIFICATION Spec
CONSTANTS MaxScans = 2 MaxRings = 3 MaxSegs = 5
 Kinds = {"wall", "arc", "corner", "pole", "jumpout", "jumpin", "gap", "spike", "far", "near", "noise", "ramp", "tiny"}
 Orders = {"sorted", "shuffled", "interleaved", "reversed"}
 Layouts = {"plain", "padded", "extra", "permuted"}
