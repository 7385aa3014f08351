"""Concrete file texts for the abstract files of the specifications."""
import datetime

SYS = "GRSECJIM"
BASE = datetime.datetime(2015, 1, 1)


def txt(codes):
    return "".join(map(chr, codes))


def epoch(sec):
    return BASE + datetime.timedelta(seconds=sec)


def lab(body, label):
    return "%-60s%-20s" % (body, label)


# ---------------------------------------------------------------- ANTEX
def antex_header(kind="ok", comments=1):
    first = lab("     1.4            M", "ANTEX VERSION / SYST")
    pcv = lab("A", "PCV TYPE / REFANT")
    body = [lab("SYNTHETIC CALIBRATIONS", "COMMENT")] * comments + [lab("", "END OF HEADER")]
    if kind == "version": first = lab("     2.7            M", "ANTEX VERSION / SYST")
    if kind == "system": first = lab("     1.4            q", "ANTEX VERSION / SYST")
    if kind == "relative": pcv = lab("R", "PCV TYPE / REFANT")
    if kind == "noend": body = body[:-1]
    if kind == "empty": return []
    if kind == "v13": first = lab("     1.3            G", "ANTEX VERSION / SYST")
    return [first, pcv] + body


def antex_block(b):
    d = b.get("d", 0)
    bad = b.get("bad", 0)
    grid, rms, opt = d % 4, d % 3, d // 2 % 3
    L = [lab("", "START OF ANTENNA")]
    if b["k"] == "r":
        L.append(lab("%-20s%-20s" % (txt(b["name"])[:20], txt(b["ser"])[:20]), "TYPE / SERIAL NO"))
    else:
        s = SYS[b["sys"]]
        sat = {3: s + "xx", 4: ""}.get(bad, "%s%02d" % (s, b["prn"]))
        svn = {1: "%s%03d" % ("E" if s != "E" else "G", max(b["svn"], 1)), 5: s + "x01"}.get(
            bad, "%s%03d" % (s, b["svn"]) if b["svn"] >= 0 else "")
        L.append(lab("%-20s%-20s%-10s%-10s" % (txt(b["ty"]), sat, svn, txt(b["cos"])), "TYPE / SERIAL NO"))
    if bad == 10: L.pop()
    if bad != 11: L.append(lab("ROBOT               Geo++ GmbH               2    25-MAR-11", "METH / BY / # / DATE"))
    dazi = 5 if d == 11 else 30 if grid == 2 else 0
    z1, z2, dz = [(0, 90, 5), (0, 20, 5), (0, 90, 10), (0, 60, 1)][grid]
    n = (z2 - z1) // dz + 1
    if bad != 12: L.append(lab("  %6.1f" % dazi, "DAZI"))
    if bad != 13: L.append(lab("  %6.1f%6.1f%6.1f" % (z1, z2, dz), "ZEN1 / ZEN2 / DZEN"))
    count = "" if bad == 15 else "%6d" % (len(b["f"]) + (bad == 16))
    if bad != 14: L.append(lab(count, "# OF FREQUENCIES"))
    if d % 5 == 4: L.append(lab("a comment", "COMMENT"))
    more = [lab("START OF ANTENNA %d VALID FROM 2001" % k, "COMMENT") for k in range((0, 35, 150)[d // 12 % 3])]
    if b["k"] == "s":
        for key, name in (("from", "VALID FROM"), ("until", "VALID UNTIL")):
            if key == "until": L += more[1::2]
            if b[key] and not (key == "from" and bad == 2):
                t = epoch(b[key][0])
                off = 12 if (key, bad) in (("from", 6), ("until", 7)) else 0
                L.append(lab("%6d%6d%6d%6d%6d%13.7f" % (t.year, t.month + off, t.day, t.hour, t.minute, t.second), name))
    L += more[::2]
    if opt != 1: L.append(lab("IGS14_1935", "SINEX CODE"))
    if opt != 0:
        L += [lab("a comment", "COMMENT")] * opt + [lab("", "COMMENT")]
    row = lambda h, k: h + "".join("%8.2f" % (k * .25 - j) for j in range(n))
    tail = []
    for k, (y, band, de, dn, du) in enumerate(b["f"]):
        if bad == 20: break
        wrong = bad if k == len(b["f"]) - 1 else 0
        code = "   %s" % SYS[y] + ("??" if wrong == 19 else "%02d" % band)
        body = [row("   NOAZI", k)] + [row("%8.1f" % az, k) for az in range(0, 361, dazi or 400)] * (dazi > 0)
        neu = lambda a, b, c: lab("%10.2f%10.2f%10.2f" % (a / 100., b / 100., c / 100.), "NORTH / EAST / UP")
        off = [] if wrong == 17 else [lab("      ****" * 3, "NORTH / EAST / UP")] if wrong == 18 else [neu(de, dn, du)]
        L += [lab(code, "START OF FREQUENCY")] + off + body + [lab(code, "END OF FREQUENCY")]
        r = [lab(code, "START OF FREQ RMS"), neu(11, 12, 13)] + body + [lab(code, "END OF FREQ RMS")]
        if rms == 1: L += r
        if rms == 2: tail += r
    return L + tail + [lab("", "END OF ANTENNA")] * (bad != 21)


def antex(blocks, header="ok", newline=True, comments=1):
    L = antex_header(header, comments)
    for b in blocks:
        L += antex_block(b)
    return "\n".join(L) + ("\n" if newline and L else "")


# ---------------------------------------------------------------- navigation
def dfield(v, style=0):
    """19 columns of a Fortran D19.12 number (several legal writings)."""
    m, e = v
    s = str(abs(m))
    if m == 0:
        return " 0.000000000000%s+00" % "DdEe"[style % 4]
    if style >= 4 and len(s) <= 12:     # 0.ddd form
        return "%s0.%-12s%s%+03d" % (" -"[m < 0], s.ljust(12, "0"), "DdEe"[style % 4], e + len(s))
    return "%s%s.%s%s%+03d" % (" -"[m < 0], s[0], s[1:].ljust(12, "0"), "DdEe"[style % 4], e + len(s) - 1)


def nav_record(b):
    y, st = b["y"], b["l"] % 8
    t = epoch(b["t"])
    f = [dfield(v, st) for v in b["d"]]
    date = "%04d %02d %02d %02d %02d %02d" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
    spare = dfield([0, 0], st) if b["l"] % 3 else " " * 19
    if b["bad"] == "num": f[(7 * b["l"] + 3 * b["p"] + 5) % len(f)] = ["      not-a-number ", "                 xx", ".                  "][b["l"] % 3]
    if b["bad"] == "date": date = ["2015 13 11 00 00 00", "2015 02 30 00 00 00", "2015 06 31 12 00 00", "xxxx 01 01 00 00 00", "2015 xx 01 00 00 00", "2015 01 xx 00 00 00",
                                   "2015 00 11 00 00 00", "2015 01 00 00 00 00"][b["l"] % 8]
    prn = 0 if b["bad"] == "prn" else b["p"]
    sysc = "q" if b["bad"] == "sys" else SYS[y]
    L = ["%s%02d %s" % (sysc, prn, date) + "".join(f[:3])]
    f = f[3:]
    if SYS[y] in "EC":
        f = f[:19] + [spare] + f[19:]
    while f:
        L.append("    " + "".join(f[:4]) + (" " * (b["l"] % 2 * 3)))
        f = f[4:]
    if SYS[y] in "GJCEI" and b["l"] % 3 == 1:   # spare fields at the end
        while len(L[-1].rstrip()) < 80:
            L[-1] = L[-1].rstrip() + dfield([0, 0], st)
    if b["bad"] == "cut":
        L = L[:1 + (b["l"] + b["p"]) % (len(L) - 1)]
    if b["bad"] == "long":
        k = b["l"] % len(L)
        L[k] += " " * (100, 300, 48)[b["l"] // 8 % 3] + "x" * (b["l"] % 5)
    return L


def nav(recs, kind="ok", newline=True, comments=1):
    h = lambda body, l: "%-60s%-20s" % (body, l)
    first = "%9.2f%11s%-20s%-20s%-20s" % (3.04, "", "N: GNSS NAV DATA", "M: MIXED", "RINEX VERSION / TYPE")
    if kind == "type": first = first.replace("N: GNSS", "O: GNSS")
    if kind == "system": first = first.replace("M: MIXED", "q: MIXED")
    if kind == "version": first = "abc" + first[3:20].replace("3.04", "    ") + first[20:]
    L = [first] + [h("a comment", "COMMENT")] * comments
    if kind != "noend": L.append(h("", "END OF HEADER"))
    if kind == "empty": L = []
    for b in recs:
        L += nav_record(b)
    return "\n".join(L) + ("\n" if newline and L else "")


# ---------------------------------------------------------------- observations
def limbs(v):
    return v[0] * 10 ** 6 + v[1]


def fixed(n, width, dec):
    """Fortran F<width>.<dec> of n * 10^-dec."""
    s = "%0*d" % (dec + 1, abs(n))
    t = ("-" if n < 0 else "") + s[:-dec] + "." + s[-dec:]
    assert len(t) <= width, (n, width)
    return t.rjust(width)


def obs_decl(y, codes, kind=""):
    L, n = [], len(codes) + (1 if kind == "count" else 0)
    c = [x.replace("?", " ") for x in codes]
    for k in range(0, max(len(c), 1), 13):
        body = " " + " ".join(c[k:k + 13])
        L.append(lab(("%s  %3d" % ("q" if kind == "sysletter" else SYS[y], n) if k == 0 else " " * 6) + body, "SYS / # / OBS TYPES"))
    return L


def obs_header(h, kind="ok"):
    l = h["l"]
    first = "%9.2f%11s%-20s%-20s%-20s" % (h["ver"] / 100., "", "OBSERVATION DATA", "%s: SYSTEM" % SYS[h["sys"]], "RINEX VERSION / TYPE")
    if kind == "type": first = first.replace("OBSERVATION", "NAVIGATION ")
    if kind == "system": first = first[:40] + "q" + first[41:]
    if kind == "version": first = "   abc   " + first[9:]
    R = []
    if h["mk"]: R.append([lab(txt(h["mk"]), "MARKER NAME")])
    if h["mn"]: R.append([lab(txt(h["mn"]), "MARKER NUMBER")])
    if h["rn"] or h["rt"]: R.append([lab("%-20s%-20s%-20s" % (txt(h["rn"]), txt(h["rt"]), "4.87"), "REC # / TYPE / VERS")])
    if h["ant"]: R.append([lab("%-20s%-20s" % (txt(h["ant"][1]), txt(h["ant"][0])[:20]), "ANT # / TYPE")])
    v3 = lambda v, bad: "".join(["      no-number"[:14]] * 3 if bad else [fixed(limbs(x), 14, 4) for x in v])
    if h["pos"] or kind == "pos": R.append([lab(v3(h["pos"], kind == "pos"), "APPROX POSITION XYZ")])
    if h["ecc"] or kind == "ecc": R.append([lab(v3(h["ecc"], kind == "ecc"), "ANTENNA: DELTA H/E/N")])
    if h["clk"] >= 0 or kind == "clk": R.append([lab("%6d" % ((7, 2, -1, 9)[l % 4] if kind == "clk" else h["clk"]), "RCV CLOCK OFFS APPL")])
    if h["first"] or kind == "first":
        t = epoch(h["first"][0]) if h["first"] else epoch(0)
        R.append([lab("%6d%6d%6d%6d%6d%13.7f     GPS" % (t.year, 13 if kind == "first" else t.month, t.day, t.hour, t.minute,
                                                       t.second + (h["first"][1] if h["first"] else 0) / 1e6), "TIME OF FIRST OBS")])
    D = [obs_decl(y, c, kind if k == 0 and kind in ("count", "sysletter") else "") for k, (y, c) in enumerate(h["decl"])]
    if kind == "sysletter" and not D: D = [obs_decl(0, ["C1C"], kind)]
    if kind == "count" and not D: D = [obs_decl(0, ["C1C"], kind)]
    if kind == "badcode": D = D[1:] + [obs_decl(6, ["C1C", "z1C", "C2C"])]
    if kind == "dup": D = (D or [obs_decl(0, ["C1C"])]) + [(D or [obs_decl(0, ["C1C"])])[0]]
    X = [[lab("a comment", "COMMENT")] for _ in range(700 if l % 12 == 11 else [1, 0, 2, 40][l % 4])]
    if l % 5 == 1: X.append([lab("    30.000", "INTERVAL"), lab("DBHZ", "SIGNAL STRENGTH UNIT")])
    if l % 5 == 2: X.append([lab("G L1C", "SYS / PHASE SHIFT"), lab("   24 R01  1 R02 -4", "GLONASS SLOT / FRQ #")])
    B = [R + D + X, D + X + R, X + R[::-1] + D[::-1], R[:1] + D + R[1:] + X, D[::-1] + R[::-1] + X, X + D + R][l % 6]
    L = [first] + sum(B, [])
    if kind != "noend": L.append(lab("", "END OF HEADER"))
    return [] if kind == "empty" else L


def obs_epoch(e, decl):
    L, bad, l = [], e["bad"], e["l"]
    t = epoch(e["t"])
    ss = e["sats"]
    n = e["n"] if e["fl"] > 1 else len(ss)
    if bad == "count": n += 40
    if bad == "nsat": n = 998
    date = ["%04d" % t.year] + ["%02d" % k for k in (t.month, t.day, t.hour, t.minute)]
    if bad == "date": date[1:3] = [["13", "01"], ["00", "11"], ["02", "30"], ["06", "31"], ["01", "32"], ["01", "00"], ["11", "31"], ["12", "40"]][l % 8]
    if bad == "time": date[l % 5] = "xxxx" if l % 5 == 0 else "xx"
    mark = "%s %s%11s" % ("<" if bad == "mark" else ">", " ".join(date), "xx.xxxxxxx" if bad == "sec" else "%11.7f" % (t.second + e["u"] / 1e7))
    if e["fl"] > 1 and l % 2: mark = ">" + " " * 28
    head = "%s  %d%3s" % (mark, e["fl"], ["xx", " ", "  x"][l % 3] if bad == "number" else n)
    if l % 3 == 1: head += "      %15.12f" % (-0.123456789012)
    L.append(head + " " * (l % 4 == 2) * 21)
    if e["fl"] > 1:
        for k in range(e["n"]):
            L.append("G%02d%s" % (k + 1, fixed(20000000000 + k, 14, 3)) if e["fl"] == 6 else
                     [lab("antenna changed", "COMMENT"), lab("NEW1", "MARKER NAME"), "> not an epoch"][(k + l) % 3])
    ncol = dict((y, len(c)) for y, c in decl)
    for k, s in enumerate(ss):
        line = "%s%02d" % ("q" if bad == "sat" and k == 0 else SYS[s["y"]], 0 if bad == "prn" and k == 0 else s["p"])
        if l % 7 == 3 and s["p"] < 10: line = line[0] + " " + line[2:]
        for j, v in enumerate(s["v"]):
            q = (j * 7 + l * 5 + k * 3) % 11
            ind = ["  ", " 8", "1 ", "25", " 3", "47", "  ", "99", "  ", " 1", "3 "][q]
            f = fixed(v[1] * 10 ** 6 + v[2], 14, 3) if v[0] else " " * 14
            if bad == "val" and k == 0: f = "      no-number"[:14]
            if not v[0] and (l + j) % 3: ind = "  "
            line += f + ind
        if bad == "half" and k == 0:
            if s["v"] and s["v"][-1][0]: line = line[:3 + 16 * (len(s["v"]) - 1) + 13 - l % 10]
        elif l % 3 == 0: line = line.rstrip()
        if l % 9 == 8 and bad != "half": line += " " * 12
        L.append(line)
    if bad == "cut": L = L[:-1]
    return L


def obs(h, es, kind="ok", newline=True):
    L = obs_header(h, kind)
    for e in es:
        L += obs_epoch(e, h["decl"])
    return "\n".join(L) + ("\n" if newline and L else "")


# ---------------------------------------------------------------- SP3
def sp3_header(h, kind="ok"):
    t, l = epoch(h["t"]), h["l"]
    sod = h["t"] % 86400
    d = (t - datetime.datetime(1980, 1, 6)).days
    wk, mjd = d // 7, d + 44244
    sow = d % 7 * 86400 + sod
    if kind == "sow": sow += 1
    if kind[:3] == "mjd": mjd += int(kind[3:] or 1)
    if kind == "frac": sod += 1
    if kind == "frac0.5": sod += .5
    if kind == "half": sow += .5
    if kind[:4] == "week": wk += int(kind[4:])
    us = h.get("u", 0)
    iv = h["int"][0] * 10 ** 6 + h["int"][1]
    c = {"version": "e", "velocity": "x"}.get(kind, "cd"[h["ver"]])
    L = ["#%s%s%04d %2d %2d %2d %2d %11.8f %7d %5s %-5s %3s %4s" % (c, "PV"[l % 2], t.year, 13 if kind == "date" else t.month, t.day, t.hour, t.minute, t.second + us / 1e6,
                                                                    h["n"], "ORBIT", txt(h["crd"]), txt(h["orb"]), txt(h["ag"])),
         "## %4d %15s %s %5d %15.13f" % (wk, fixed(int(sow * 10 ** 6 + us) * 100, 15, 8), fixed(iv * 100, 14, 8), mjd, (sod * 10 ** 6 + us) / 86400e6)]
    n = h["nsat"]
    ids = ["%s%02d" % ("GRECJ"[k // 40 % 5], k % 40 + 1) for k in range(n)]
    rows = max(5, -(-n // 17)) + (l % 3 == 2)
    for k in range(rows):
        r = ids[17 * k:17 * k + 17]
        num = "%4d" % n if k == 0 else "    "
        if kind == "nosat" and k == 0: num = "   x"
        L.append("+ %s   " % num + "".join(r) + "  0" * (17 - len(r)))
    for k in range(0 if kind == "noacc" else rows):
        L.append("++       " + "".join("%3d" % ((k + j) % 9 + 2) for j in range(17)))
    L += ["%%c %-2s cc %-3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc" % ("GMR"[l % 3], txt(h["ts"])),
          "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"]
    if kind == "noc": L = L[:-1]
    L += ["%f  1.2500000  1.025000000  0.00000000000  0.000000000000000", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000"]
    if kind == "nof": L = L[:-1]
    L += ["%i    0    0    0    0      0      0      0      0         0"] * (1 if kind == "noi" else 2)
    L += ["/* " + "C" * 57] * (4 if h["ver"] == 0 else [0, 1, 4, 30, 200][l % 5])
    # the marks of the header lines and the numbers every reader needs
    first = {"#": 0, "##": 1, "+": 2, "++": 2 + rows, "%c": 2 + 2 * rows, "%C": 3 + 2 * rows, "%f": 4 + 2 * rows, "%F": 5 + 2 * rows,
             "%i": 6 + 2 * rows, "%I": 7 + 2 * rows, "/*": 8 + 2 * rows}
    if kind.startswith("mark:"):
        _, m, col = kind.split(":")
        k, col = first[m], int(col)
        if k < len(L): L[k] = L[k][:col] + "x" + L[k][col + 1:]
    if kind.startswith("num:"):
        _, k, a, b = kind.split(":")
        k, a, b = int(k), int(a), int(b)
        L[k] = L[k][:a] + "x" * (b - a) + L[k][b:]
    return [] if kind == "empty" else L


def sp3_epoch(e, nsat):
    t, l, bad = epoch(e["t"]), e["l"], e["bad"]
    L = ["%s  %04d %2d %2d %2d %2d %11.8f" % ("#" if bad == "mark" else "*", t.year, 13 if bad == "date" else t.month, t.day, t.hour, t.minute, t.second + e["u"] / 1e6)]
    if bad == "mark1": L[0] = "*x" + L[0][2:]
    if bad[:1] == "t":      # a field of the date
        a, w = [(3, 4), (8, 2), (11, 2), (14, 2), (17, 2), (20, 11)][int(bad[1])]
        L[0] = L[0][:a] + "x" * w + L[0][a + w:]
    rs = e["recs"]
    if bad == "many": rs = (rs * (nsat + 1))[:nsat + 1]
    for k, r in enumerate(rs):
        b = bad if k == 0 else ""
        f = [fixed(limbs(v), 14, 6) for v in r["v"]]
        if b == "num": f[1] = "  not-a-number"
        if b == "blank": f[2] = " " * 14
        line = "P%s%s" % ("q" if b == "sat" else SYS[r["y"]], "xx" if b == "prn" else "  " if b == "noprn" else "%02d" % r["p"]) + "".join(f)
        if b == "short": line = line[:30]
        else:
            fl = r["fl"]
            s = "".join(c if j in fl else " " for j, c in enumerate("EPMP"))
            sd = " 12 11 10 134" if (l + k) % 3 else " " * 13
            line += "%s %s  %s" % (sd, s[:2], s[2:])
            if l % 2 == 0: line = line.rstrip()
            if b == "long": line = line.ljust([128, 160, 300][l % 3])
        L.append(line)
        if l % 3 == 1: L.append("EP  55  55  55     222  1234567 -1234567  5999999      -30       21  1230000")
        if l % 3 == 2: L.append("/* a comment between records")
        if l % 4 == 3: L.append("V%s%02d  20298.880364 -18462.044804   1381.387685     -4.534317 14 14 14 191" % (SYS[r["y"]], r["p"]))
        if l % 4 == 3 and k % 2: L.append("EV  22  22  22     111  1234567  1234567  1234567  1234567  1234567  1234567")
    return L


def sp3(h, es, kind="ok", tail=0):
    """tail: 0 EOF record, 1 EOF record without newline, 2 none, 3 none and no final newline"""
    L = sp3_header(h, kind)
    for e in es:
        L += sp3_epoch(e, h["nsat"])
    if tail < 2: L.append("EOF")
    return "\n".join(L) + ("\n" if tail in (0, 2) and L else "")


BERN_L1 = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2"
BERN_H1 = ("                                              START TIME           END TIME                 SENSOR OFFSETS (M)"
           "       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)")
BERN_H2 = ("PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y"
           "       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>")
OPEN = 2000000000


def bern_time(t):
    d = epoch(t)
    return "%04d %02d %02d %02d %02d %02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)


def bern_record(r):
    l, bad = r["l"], r["bad"]
    a = bern_time(r["a"]) if bad != "start" else "YYYY 01 01 00 00 00"
    z = " " * 19 if r["z"] == OPEN else bern_time(r["z"])
    if bad == "stop": z = "2015 xx 01 00 00 00"
    svn = ("%03d" if l % 2 else "%3d") % r["s"]
    if r["k"]: typ = ["SLR", "VLBI", "LW", "MX", " MW"][l % 5]
    else: typ = "MW"
    # an SVN that is missing; a NUMBER that looks like one
    if bad == "svn": svn = "   "
    c = "    " if bad == "chan" else ("%4d" if l % 3 else "%+4d") % r["c"]
    line = "%3d  %-4s  %-17s%-3s  %6d  %s  %s  %9.5f %9.5f %9.5f %7.3f %7.3f %7.3f    %7.3f %7.3f %7.3f" % (
        r["p"], typ, ["TRANSMITTER", "MW ANTENNA", "R%02d" % (r["p"] % 100), "MW ANTENNA 123456"][l % 3 if l % 5 else 3], svn, r["s"] if l % 2 or bad == "svn" else 0, a, z, -.545, 0, 2.3, 0, 0, 1, 1, 0, 0)
    line = "%-171s%-20s  %s" % (line, "GLONASS-M", c)
    line = "%-199s%s" % (line, ["", "L1C L1P L2C L2P", ("L1C C1C D1C S1C " * 60)[:313 + l // 16 * 3 if l % 16 == 10 else 128 if l % 3 else 52 + l % 17], " L1C L1P L2C L2P C1C"][l % 4])
    if bad == "short": line = line[:60]
    return line.rstrip() if l % 2 else line


def bern(rs, kind="ok", tail=0, parts=3):
    """tail: 0 PART 3 after an empty line, 1 end of file, 2 end without newline, 3 PART 3 directly"""
    L = [BERN_L1 if kind != "first" else BERN_L1.replace("BSW5.2", "BSW5.0"), "-" * 59, "",
         "PART 1: PHYSICAL SATELLITE PARAMETERS", "-------------------------------------", ""]
    for k in range(parts):
        L.append("%3d     730     0  20  2003 12 10 17 42 00  2099 12 31 00 00 00  MW  %s" % (k + 1, "9" * (k % 7 * 50)))
    L += ["", "PART 2: ON-BOARD SENSORS" if kind != "nopart2" else "PART 4: ON-BOARD SENSORS", "-" * 24,
          BERN_H1 if kind != "h1" else BERN_H1.replace("END TIME", "STOP    "),
          BERN_H2 if kind != "h2" else BERN_H2.replace("SVN ", "PRN "), ""]
    L += [bern_record(r) for r in rs]
    if tail == 0: L.append("")
    if tail in (0, 3): L += ["PART 3: ANTENNA PHASE CENTER OFFSETS", "-" * 36, "",
                             bern_record({"k": 0, "s": 730, "p": 999, "c": -7, "a": -10 ** 9, "z": OPEN, "bad": "", "l": 1}), ""]
    if kind == "empty": L = []
    return "\n".join(L) + ("\n" if tail != 2 and L else "")
