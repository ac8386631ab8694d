-------------------------------- MODULE CRC --------------------------------
(***************************************************************************)
(* Cyclic redundancy check as a w-bit linear feedback shift register        *)
(* (Rocksoft model), one transition per message bit, and the catalogue of   *)
(* named variants of the library.  Register values are Num naturals.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num

Low(x, w)     == NMod(x, NPow2(w))
\* shift the register by one bit, feeding message bit b at the top
Clock(reg, b, w, poly) ==
  LET out == (NBit(reg, w - 1) + b) % 2
      sh  == Low(NMul("2", reg), w)
  IN  IF out = 1 THEN NXor(sh, poly) ELSE sh
\* bits of a byte in the order they enter: most significant first, or least significant first if reflected
ByteBit(byte, j, refIn) == LET p == <<128, 64, 32, 16, 8, 4, 2, 1>> k == IF refIn THEN 9 - j ELSE j IN (byte \div p[k]) % 2
FeedByte(reg, byte, w, poly, refIn) ==
  LET C(r, j) == Clock(r, ByteBit(byte, j, refIn), w, poly)
  IN  FoldLeft(C, reg, <<1, 2, 3, 4, 5, 6, 7, 8>>)
Reflect(x, w) == LET A(s, j) == IF NBit(x, j) = 1 THEN NAdd(s, NPow2(w - 1 - j)) ELSE s
                 IN  FoldLeft(A, "0", [j \in 1..w |-> j - 1])
Register(msg, w, poly, init, refIn) ==
  LET F(r, byte) == FeedByte(r, byte, w, Low(poly, w), refIn) IN FoldLeft(F, Low(init, w), msg)
Crc(msg, w, poly, init, refIn, refOut, xor) ==
  LET r == Register(msg, w, poly, init, refIn)
  IN  NXor(IF refOut THEN Reflect(r, w) ELSE r, Low(xor, w))

\* name |-> <<width, poly, init, refIn, refOut, xorOut>> (hexadecimal naturals, Num notation)
Catalogue == [
  crc8              |-> <<8,  "0x07p0", "0", FALSE, FALSE, "0">>,
  crc8_CDMA2000     |-> <<8,  "0x9bp0", "0xffp0", FALSE, FALSE, "0">>,
  crc8_DARC         |-> <<8,  "0x39p0", "0", TRUE, TRUE, "0">>,
  crc8_DVS_S2       |-> <<8,  "0xd5p0", "0", FALSE, FALSE, "0">>,
  crc8_EBU          |-> <<8,  "0x1dp0", "0xffp0", TRUE, TRUE, "0">>,
  crc8_I_CODE       |-> <<8,  "0x1dp0", "0xfdp0", FALSE, FALSE, "0">>,
  crc8_ITU          |-> <<8,  "0x07p0", "0", FALSE, FALSE, "0x55p0">>,
  crc8_MAXIM        |-> <<8,  "0x31p0", "0", TRUE, TRUE, "0">>,
  crc8_ROHC         |-> <<8,  "0x07p0", "0xffp0", TRUE, TRUE, "0">>,
  crc8_WCDMA        |-> <<8,  "0x9bp0", "0", TRUE, TRUE, "0">>,
  crc16_CCITT_FALSE |-> <<16, "0x1021p0", "0xffffp0", FALSE, FALSE, "0">>,
  crc16_ARC         |-> <<16, "0x8005p0", "0", TRUE, TRUE, "0">>,
  crc16_AUG_CCITT   |-> <<16, "0x1021p0", "0x1d0fp0", FALSE, FALSE, "0">>,
  crc16_BUYPASS     |-> <<16, "0x8005p0", "0", FALSE, FALSE, "0">>,
  crc16_CDMA2000    |-> <<16, "0xc867p0", "0xffffp0", FALSE, FALSE, "0">>,
  crc16_DDS_110     |-> <<16, "0x8005p0", "0x800dp0", FALSE, FALSE, "0">>,
  crc16_DECT_R      |-> <<16, "0x0589p0", "0", FALSE, FALSE, "1">>,
  crc16_DECT_X      |-> <<16, "0x0589p0", "0", FALSE, FALSE, "0">>,
  crc16_DNP         |-> <<16, "0x3d65p0", "0", TRUE, TRUE, "0xffffp0">>,
  crc16_EN_13757    |-> <<16, "0x3d65p0", "0", FALSE, FALSE, "0xffffp0">>,
  crc16_GENIBUS     |-> <<16, "0x1021p0", "0xffffp0", FALSE, FALSE, "0xffffp0">>,
  crc16_MAXIM       |-> <<16, "0x8005p0", "0", TRUE, TRUE, "0xffffp0">>,
  crc16_MCRF4XX     |-> <<16, "0x1021p0", "0xffffp0", TRUE, TRUE, "0">>,
  crc16_RIELLO      |-> <<16, "0x1021p0", "0xb2aap0", TRUE, TRUE, "0">>,
  crc16_T10_DIF     |-> <<16, "0x8bb7p0", "0", FALSE, FALSE, "0">>,
  crc16_TELEDISK    |-> <<16, "0xa097p0", "0", FALSE, FALSE, "0">>,
  crc16_TMS37157    |-> <<16, "0x1021p0", "0x89ecp0", TRUE, TRUE, "0">>,
  crc16_USB         |-> <<16, "0x8005p0", "0xffffp0", TRUE, TRUE, "0xffffp0">>,
  crc16_A           |-> <<16, "0x1021p0", "0xc6c6p0", TRUE, TRUE, "0">>,
  crc16_KERMIT      |-> <<16, "0x1021p0", "0", TRUE, TRUE, "0">>,
  crc16_MODBUS      |-> <<16, "0x8005p0", "0xffffp0", TRUE, TRUE, "0">>,
  crc16_X_25        |-> <<16, "0x1021p0", "0xffffp0", TRUE, TRUE, "0xffffp0">>,
  crc16_XMODEM      |-> <<16, "0x1021p0", "0", FALSE, FALSE, "0">>,
  crc32             |-> <<32, "0x04c11db7p0", "0xffffffffp0", TRUE, TRUE, "0xffffffffp0">>,
  crc32_BZIP2       |-> <<32, "0x04c11db7p0", "0xffffffffp0", FALSE, FALSE, "0xffffffffp0">>,
  crc32_C           |-> <<32, "0x1edc6f41p0", "0xffffffffp0", TRUE, TRUE, "0xffffffffp0">>,
  crc32_D           |-> <<32, "0xa833982bp0", "0xffffffffp0", TRUE, TRUE, "0xffffffffp0">>,
  crc32_JAMCRC      |-> <<32, "0x04c11db7p0", "0xffffffffp0", TRUE, TRUE, "0">>,
  crc32_MPEG2       |-> <<32, "0x04c11db7p0", "0xffffffffp0", FALSE, FALSE, "0">>,
  crc32_POSIX       |-> <<32, "0x04c11db7p0", "0", FALSE, FALSE, "0xffffffffp0">>,
  crc32_Q           |-> <<32, "0x814141abp0", "0", FALSE, FALSE, "0">>,
  crc32_XFER        |-> <<32, "0x000000afp0", "0", FALSE, FALSE, "0">> ]
Named(name, msg) == LET c == Catalogue[name] IN Crc(msg, c[1], c[2], c[3], c[4], c[5], c[6])

\* published check values (message "123456789") anchor the specification itself
Check9 == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Published == [crc8 |-> "0xf4p0", crc8_CDMA2000 |-> "0xdap0", crc8_DARC |-> "0x15p0", crc8_DVS_S2 |-> "0xbcp0", crc8_EBU |-> "0x97p0",
  crc8_I_CODE |-> "0x7ep0", crc8_ITU |-> "0xa1p0", crc8_MAXIM |-> "0xa1p0", crc8_ROHC |-> "0xd0p0", crc8_WCDMA |-> "0x25p0",
  crc16_CCITT_FALSE |-> "0x29b1p0", crc16_ARC |-> "0xbb3dp0", crc16_AUG_CCITT |-> "0xe5ccp0", crc16_BUYPASS |-> "0xfee8p0",
  crc16_CDMA2000 |-> "0x4c06p0", crc16_DDS_110 |-> "0x9ecfp0", crc16_DECT_R |-> "0x007ep0", crc16_DECT_X |-> "0x007fp0",
  crc16_DNP |-> "0xea82p0", crc16_EN_13757 |-> "0xc2b7p0", crc16_GENIBUS |-> "0xd64ep0", crc16_MAXIM |-> "0x44c2p0",
  crc16_MCRF4XX |-> "0x6f91p0", crc16_RIELLO |-> "0x63d0p0", crc16_T10_DIF |-> "0xd0dbp0", crc16_TELEDISK |-> "0x0fb3p0",
  crc16_TMS37157 |-> "0x26b1p0", crc16_USB |-> "0xb4c8p0", crc16_A |-> "0xbf05p0", crc16_KERMIT |-> "0x2189p0",
  crc16_MODBUS |-> "0x4b37p0", crc16_X_25 |-> "0x906ep0", crc16_XMODEM |-> "0x31c3p0", crc32 |-> "0xcbf43926p0",
  crc32_BZIP2 |-> "0xfc891918p0", crc32_C |-> "0xe3069283p0", crc32_D |-> "0x87315576p0", crc32_JAMCRC |-> "0x340bc6d9p0",
  crc32_MPEG2 |-> "0x0376e6e7p0", crc32_POSIX |-> "0x765e7680p0", crc32_Q |-> "0x3010bf7fp0", crc32_XFER |-> "0xbd0be338p0"]
CatalogueIsPublished == DOMAIN Published = DOMAIN Catalogue /\ \A n \in DOMAIN Published : NEq(Named(n, Check9), Published[n])
=============================================================================
