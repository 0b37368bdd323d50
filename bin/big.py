"""Numbers in the specifications' encodings."""
def nat(x):
    v = []
    while x > 0: v.append(x % 10000); x //= 10000
    return v
def int_(x): return [x < 0, nat(abs(x))]
def limbs16(x): return [(x >> (16 * k)) & 0xffff for k in range(4)]
