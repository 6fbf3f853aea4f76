------------------------------- MODULE Custom -------------------------------
(* Pixels of a user's type: containers ask of it only the operations of the methods which are called, with the
   operands in the order in which they are written, once per pixel; elements live as long as their containers.
   A pixel is a text: what was computed. *)
EXTENDS Integers, Sequences, TLC

Binary(op, x, y) == "(" \o x \o op \o y \o ")"
Minus(x) == "-" \o x
Stepped(op, x) == op \o x

Each(op, a, b) == [i \in DOMAIN a |-> Binary(op, a[i], b[i])]
EachBy(op, a, k) == [i \in DOMAIN a |-> Binary(op, a[i], k)]
ByEach(op, k, a) == [i \in DOMAIN a |-> Binary(op, k, a[i])]
Opposite(a) == [i \in DOMAIN a |-> Minus(a[i])]
Step(op, a) == [i \in DOMAIN a |-> Stepped(op, a[i])]

RECURSIVE Listed(_)
Listed(xs) == IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o "," \o Listed(Tail(xs))
(* A function with a memory: it names its arguments and the rank of the call *)
Call(name, args, rank) == name \o "(" \o Listed(args \o <<ToString(rank)>>) \o ")"
Generated(name, inputs, n) == [i \in 1..n |-> Call(name, [k \in DOMAIN inputs |-> inputs[k][i]], i)]

(* --- Order of a user's type: by key, so that different pixels may be equivalent. First of the extreme ones. --- *)
FirstLeast(keys) == CHOOSE i \in DOMAIN keys : /\ \A j \in DOMAIN keys : keys[i] <= keys[j]
                                               /\ \A j \in 1..(i - 1) : keys[i] < keys[j]
FirstLargest(keys) == CHOOSE i \in DOMAIN keys : /\ \A j \in DOMAIN keys : keys[i] >= keys[j]
                                                 /\ \A j \in 1..(i - 1) : keys[i] > keys[j]

(* --- Channels: image[c + 1][i + 1] is channel c of pixel i. Memory of the three layouts. --- *)
Channels(image) == Len(image)
Pixels(image) == IF image = <<>> THEN 0 ELSE Len(image[1])
Interleaved(image) == [k \in 1..(Channels(image) * Pixels(image)) |->     \* structures, or axis 0
                         image[((k - 1) % Channels(image)) + 1][((k - 1) \div Channels(image)) + 1]]
Planar(image) == [k \in 1..(Channels(image) * Pixels(image)) |->          \* last axis
                    image[((k - 1) \div Pixels(image)) + 1][((k - 1) % Pixels(image)) + 1]]
OfInterleaved(m, n) == [c \in 1..n |-> [i \in 1..(Len(m) \div n) |-> m[(i - 1) * n + c]]]
OfPlanar(m, n) == [c \in 1..n |-> [i \in 1..(Len(m) \div n) |-> m[(c - 1) * (Len(m) \div n) + i]]]
RECURSIVE WeightedFrom(_, _, _, _)
WeightedFrom(image, w, i, c) == IF c > Len(w) THEN 0 ELSE w[c] * image[c][i] + WeightedFrom(image, w, i, c + 1)
Weighted(image, w) == [i \in 1..Pixels(image) |-> WeightedFrom(image, w, i, 1)]
Scaled(image, c, k) == [image EXCEPT ![c] = [i \in DOMAIN @ |-> k * @[i]]]
Rotated(image) == [c \in 1..Channels(image) |-> image[(c % Channels(image)) + 1]]

(* --- Characters --- *)
Char(x) == ((x + 128) % 256) - 128
=============================================================================
