"""C03: cyclic redundancy checks."""
import random

NAMES = """crc8 crc8_CDMA2000 crc8_DARC crc8_DVS_S2 crc8_EBU crc8_I_CODE crc8_ITU crc8_MAXIM crc8_ROHC crc8_WCDMA
crc16_CCITT_FALSE crc16_ARC crc16_AUG_CCITT crc16_BUYPASS crc16_CDMA2000 crc16_DDS_110 crc16_DECT_R crc16_DECT_X crc16_DNP
crc16_EN_13757 crc16_GENIBUS crc16_MAXIM crc16_MCRF4XX crc16_RIELLO crc16_T10_DIF crc16_TELEDISK crc16_TMS37157 crc16_USB
crc16_A crc16_KERMIT crc16_MODBUS crc16_X_25 crc16_XMODEM crc32 crc32_BZIP2 crc32_C crc32_D crc32_JAMCRC crc32_MPEG2
crc32_POSIX crc32_Q crc32_XFER""".split()


def hexmsg(rnd, n):
    k = rnd.random()
    if k < 0.1:
        b = bytes(n)
    elif k < 0.2:
        b = b"\xff" * n
    else:
        b = bytes(rnd.randrange(256) for _ in range(n))
    return b.hex() if n else "-"


def run(c):
    c.model_check("CRCMC")
    rnd = random.Random(c.seed)
    exe = c.build("crc")
    blocks = []
    reps = 30 if c.thorough else 6
    for nm in NAMES:
        b = ["new", "named %s 313233343536373839" % nm, "named %s -" % nm, "named %s ~" % nm, "named %s 00" % nm, "named %s ff" % nm, "named %s 80" % nm, "named %s 01" % nm]
        for _ in range(reps):
            b.append("named %s %s" % (nm, hexmsg(rnd, rnd.choice([1, 2, 3, 4, 5, 8, 15, 16, 31, 40]))))
        b.append("named %s *%d.%d" % (nm, rnd.choice([255, 256, 257, 300, 513]), rnd.randrange(10 ** 6)))
        blocks.append(b)
    for mode in (8, 16, 32):
        for ri in (0, 1):
            for ro in (0, 1):
                b = ["new"]
                for _ in range(150 if c.thorough else 30):
                    wide = rnd.random() < 0.5   # parameters wider than the register: only their low bits count
                    bits = 32 if wide else mode
                    poly, init, x = rnd.getrandbits(bits), rnd.choice([0, 2 ** bits - 1, rnd.getrandbits(bits)]), rnd.choice([0, 2 ** bits - 1, rnd.getrandbits(bits)])
                    b.append("generic %d %d %d %d %d %d %s" % (mode, poly, init, ri, ro, x, hexmsg(rnd, rnd.choice([1, 1, 2, 3, 4, 7, 16, 33]))))
                b.append("generic %d 7 1 %d %d 3 -" % (mode, ri, ro))
                b.append("generic %d 7 1 %d %d 3 ~" % (mode, ri, ro))
                b.append("generic 0 7 1 %d %d 3 0102" % (ri, ro))
                blocks.append(b)
    # every one-byte message
    for nm in (NAMES if c.thorough else ["crc8", "crc8_MAXIM", "crc16_MODBUS", "crc16_XMODEM", "crc32", "crc32_MPEG2"]):
        blocks.append(["new"] + ["named %s %02x" % (nm, k) for k in range(256)])
    # one history that mixes every variant: what was computed before does not matter
    for _ in range(6 if c.thorough else 2):
        order = NAMES * 3
        rnd.shuffle(order)
        blocks.append(["new"] + ["named %s %s" % (nm, hexmsg(rnd, rnd.choice([1, 2, 5, 9]))) for nm in order])
        b = ["new"]
        for _ in range(8):
            poly = rnd.choice([0x07, 0x1D, 0x31, 0x8005, 0x1021, 0x04C11DB7, rnd.getrandbits(32)])
            for _ in range(8):
                b.append("generic %d %d %d %d %d %d %s" % (rnd.choice([8, 16, 32]), poly ^ (rnd.choice([0, 0, 0, 0x10000, 0x100])), rnd.choice([0, 2 ** 32 - 1, rnd.getrandbits(32)]), rnd.randrange(2), rnd.randrange(2),
                                                           rnd.choice([0, 2 ** 32 - 1]), hexmsg(rnd, rnd.choice([1, 2, 5, 9]))))
        blocks.append(b)
    # lengths beyond 8- and 16-bit counters
    for nm in ("crc8", "crc16_MODBUS", "crc32"):
        blocks.append(["new", "named %s *%d.%d" % (nm, 65536 + rnd.randrange(1, 40), rnd.randrange(10 ** 6))])
    c.validate(exe, "CRCTrace", blocks)
