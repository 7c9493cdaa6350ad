"""Jobs per property: which harness, which sources, which bounds."""
I = ["src/ppocr/image/image.cpp", "src/ppocr/image/coordinate.cpp", "src/ppocr/image/image_from_string.cpp"]
def grid(ws, hs, **kw): return [dict(w=w, h=h, **kw) for w in ws for h in hs]
PROPS = {}
# big images of a fixed pattern with a few free pixels spread over them
def big(*l, **kw): return [dict(w=w, h=h, part=p, kind=k, **kw) for w, h, p, ks in l for k in ks]
# odd and even sizes of up to 24 columns and rows
def sweep(p, kinds, ws=(7, 8, 9, 10, 11, 12, 13, 16, 17, 19, 24), **kw): return [dict(w=w, h=ws[(3 * i + 5) % len(ws)], part=p, kind=kinds[i % len(kinds)], seed=i, **kw) for i, w in enumerate(ws)] + [dict(w=w, h=w, part=p, kind=kinds[(i + 1) % len(kinds)], seed=i, **kw) for i, w in enumerate(ws)]
PROPS["C03"] = dict(
  harness={"c03.cpp": dict(sources=I)},
  bounds="images up to 5x5 (quick) / 8x8 (thorough), every byte value per pixel, every contained rectangle; text numbers: all 32-bit values",
  jobs=[
    dict(harness="c03.cpp", entry="h_section", quick=grid([1, 2, 3, 5], [1, 2, 4]), thorough=grid([4, 6, 7], [3, 5, 6])),
    dict(harness="c03.cpp", entry="h_rotate", quick=grid([1, 2, 3, 4, 5], [1, 2, 3, 5]), thorough=grid([6, 8], [4, 7, 8])),
    dict(harness="c03.cpp", entry="h_equal", quick=grid([1, 2, 3], [1, 2, 3]) + [dict(w=2, h=3, w2=3, h2=2), dict(w=1, h=4, w2=2, h2=2), dict(w=2, h=2, w2=2, h2=3)], thorough=grid([4, 5], [4, 5])),
    dict(harness="c03.cpp", entry="h_access", quick=grid([1, 3, 4], [1, 2, 5]), thorough=grid([6, 8], [6, 8])),
    dict(harness="c03.cpp", entry="h_print", quick=grid([1, 2, 4], [1, 3]), thorough=grid([7], [5])),
    dict(harness="c03.cpp", entry="h_fromstr", quick=grid([1, 2, 3], [1, 2]), thorough=grid([4], [4])),
    dict(harness="c03.cpp", entry="h_pointtext", quick=[dict(max=999)], thorough=[dict(max=4294967295)]),
  ])
PROPS["C04"] = dict(
  harness={"c04.cpp": dict(sources=I + ["src/ppocr/utils/image_compare.cpp"])},
  bounds="pairs of images up to 4x3 and triples up to 3x2 with every byte value per pixel, mixed sizes; image-keyed maps of 3-4 keys",
  jobs=[
    dict(harness="c04.cpp", entry="h_pair", quick=grid([1, 2, 3], [1, 2, 3]) + [dict(w=2, h=3, w2=3, h2=2), dict(w=3, h=2, w2=2, h2=3), dict(w=2, h=2, w2=2, h2=3), dict(w=2, h=3, w2=2, h2=1), dict(w=1, h=3, w2=2, h2=1), dict(w=4, h=3)], thorough=grid([5, 6], [4])),
    dict(harness="c04.cpp", entry="h_triple", quick=[dict(w=1, h=1), dict(w=2, h=1), dict(w=1, h=3), dict(w=2, h=2), dict(w=2, h=2, w2=2, h2=1, w3=1, h3=2)], thorough=[dict(w=3, h=2), dict(w=2, h=2, w2=2, h2=2, w3=2, h3=3)]),
    dict(harness="c04.cpp", entry="h_cache", quick=[dict(n=3, w=2, h=1), dict(n=2, w=2, h=2)], thorough=[dict(n=4, w=2, h=1), dict(n=3, w=2, h=2)]),
  ])
BOX = I + ["src/ppocr/box_char/make_box_character.cpp", "src/ppocr/box_char/box.cpp"]
def wh(l, **kw): return [dict(w=w, h=h, **kw) for w, h in l]
SEGM = wh([(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2), (2, 4), (6, 1), (5, 2)], merge=1)
PROPS["C05"] = dict(
  harness={"c05.cpp": dict(sources=BOX)},
  bounds="every image up to 3x3 / 5x2 / 2x4 with joined paths, and up to 5x4 / 6x3 / 9x2 / 3x6 path by path (quick); 4x3, 3x4 joined and 7x3 / 6x4 / 4x6 / 16x1 path by path (thorough); every start column",
  jobs=[
    dict(harness="c05.cpp", entry="h_scan", quick=SEGM + wh([(4, 3), (3, 4), (8, 1), (4, 4), (5, 3), (7, 2), (5, 4), (3, 6), (6, 3)]) + big((40, 20, 4, (0, 10)), (300, 9, 4, (0,)), (20, 300, 4, (1,)), (300, 3, 4, (5,)), (60, 40, 4, (10,)), (24, 24, 6, (6,))), thorough=wh([(4, 3), (3, 4), (6, 2)], merge=1) + wh([(16, 1), (9, 2), (7, 3), (6, 4), (4, 6), (11, 2)])),
    dict(harness="c05.cpp", entry="h_start", quick=SEGM + wh([(4, 3), (3, 4), (5, 2), (4, 4)]) + big((40, 20, 4, (0,)), (300, 9, 4, (10,)), (20, 300, 3, (0,))), thorough=wh([(4, 3), (3, 4)], merge=1) + wh([(5, 4), (6, 3), (4, 5)])),
  ])
PROPS["C06"] = dict(
  harness={"c06.cpp": dict(sources=BOX)},
  bounds=PROPS["C05"]["bounds"],
  jobs=[
    dict(harness="c06.cpp", entry="h_keep", quick=SEGM + wh([(4, 3), (3, 4), (8, 1), (4, 4), (5, 3), (7, 2), (5, 4), (3, 6), (6, 3)]) + big((40, 20, 4, (0, 10)), (300, 9, 4, (0,)), (20, 300, 4, (1,)), (300, 3, 4, (5,)), (60, 40, 4, (10,)), (24, 24, 6, (6,))), thorough=wh([(4, 3), (3, 4), (6, 2)], merge=1) + wh([(16, 1), (9, 2), (7, 3), (6, 4), (4, 6), (11, 2)])),
  ])
IMGF = I + ["src/ppocr/image/image_from_file.cpp"]
PROPS["C01"] = dict(
  harness={"c01.cpp": dict(sources=IMGF)},
  bounds="packed files up to 17x2 pixels, RGB up to 2x2, ASCII up to 2x2 (quick) / 6 samples (thorough) with every choice of separator; every data byte, threshold 0..300, up to 2 comment lines of 2 arbitrary bytes, every split of the data into short reads for small files",
  jobs=[
    dict(harness="c01.cpp", entry="h_packed", quick=[dict(w=w, h=h, comments=c) for w, h, c in [(1, 1, 0), (8, 1, 0), (9, 2, 0), (5, 3, 0), (7, 2, 1), (16, 2, 0), (17, 2, 0), (2, 1, 2), (10, 4, 0)]] + [dict(w=9, h=1, short=1)], thorough=[dict(w=33, h=3), dict(w=24, h=4), dict(w=1, h=9)]),
    dict(harness="c01.cpp", entry="h_rgb", quick=[dict(w=1, h=1), dict(w=2, h=1), dict(w=1, h=2, comments=1), dict(w=1, h=1, max=1)], thorough=[dict(w=2, h=2), dict(w=3, h=1, comments=2)]),
    dict(harness="c01.cpp", entry="h_ascii", quick=[dict(w=1, h=1), dict(w=2, h=1), dict(w=1, h=2, type=3, max=1), dict(w=1, h=1, gaps=3), dict(w=2, h=2), dict(w=3, h=2, gaps=0), dict(w=1, h=1, comments=1)], thorough=[dict(w=5, h=1), dict(w=2, h=3), dict(w=2, h=2, gaps=3)]),
  ])
PROPS["C02"] = dict(
  harness={"c02.cpp": dict(sources=IMGF)},
  bounds="every file of up to 7 arbitrary bytes (quick) / 8 (thorough); every file starting with a plausible magic followed by up to 5-6 arbitrary bytes, or a fixed header followed by up to 5 (quick) / 7 (thorough) arbitrary bytes; every truncation of small files between fstat and read with every short read; dimensions near 2^32",
  jobs=[
    dict(harness="c02.cpp", entry="h_bytes", quick=[dict(n=n) for n in range(0, 8)], thorough=[dict(n=8)]),
    dict(harness="c02.cpp", entry="h_tail", quick=[dict(type=t, n=n) for t in (1, 4, 6) for n in (4, 5)] + [dict(type=6, n=6)] + [dict(type=t, w=w, h=h, n=n) for t, w, h in [(1, 2, 1), (3, 1, 2), (4, 9, 1), (4, 3, 2), (6, 1, 1), (1, 1, 1)] for n in range(0, 6)] + [dict(type=2, w=1, h=1, n=1), dict(type=5, w=1, h=1, n=1), dict(type=7, n=4)], thorough=[dict(type=t, n=6, area=5000) for t in (1, 4)] + [dict(type=t, w=w, h=h, n=n) for t, w, h in [(1, 2, 2), (3, 3, 1), (4, 17, 2), (6, 2, 1), (6, 1, 2)] for n in range(0, 8)]),
    dict(harness="c02.cpp", entry="h_shrink", quick=[dict(kind=k) for k in range(4)] + [dict(kind=0, short=1)], thorough=[dict(kind=2, short=1)]),
    dict(harness="c02.cpp", entry="h_fail", quick=[dict()]),
    dict(harness="c02.cpp", entry="h_dims", quick=[dict(h=1), dict(h=2), dict(h=1, swap=1), dict(h=8, n=1), dict(type=6, h=1), dict(type=1, h=1, n=1), dict(type=6, h=3, swap=1)]),
  ])
def strat(*n): return I + ["src/ppocr/strategies/%s.cpp" % x for x in n]
BIGS = big((64, 100, 6, (0, 1, 2, 9, 8)), (64, 101, 6, (2, 9)), (300, 9, 6, (0, 1)), (9, 300, 6, (2, 8)), (32, 24, 8, (0, 4)), (20, 20, 8, (7,))) + sweep(6, (0, 2, 9, 8, 5, 3))
G1 = wh([(1, 1), (1, 2), (3, 1), (2, 2), (3, 3), (4, 2), (2, 5), (5, 3), (4, 4), (3, 5)])
PROPS["C07"] = dict(
  harness={"c07.cpp": dict(sources=strat("hdirection", "hdirection2", "hgravity", "hgravity2"))},
  bounds="every image of the listed sizes up to 4x4, 5x3, 3x5 (quick), 6x5, and 5x6, 7x7 for the direction features (thorough)",
  jobs=[dict(harness="c07.cpp", entry=e, quick=G1 + BIGS, thorough=wh([(5, 4), (4, 5), (5, 5), (4, 6), (6, 5)] + ([(5, 6), (7, 7)] if e == "h_direction" else []))) for e in ("h_direction", "h_gravity")])
PROPS["C08"] = dict(
  harness={"c08.cpp": dict(sources=strat("dvdirection", "dvdirection2", "dvgravity", "dvgravity2"))},
  bounds="every image of the listed sizes up to 4x4, 5x4, 3x6 (quick), 6x6, 7x5, and 8x8 for the direction features (thorough); every content of the pixels outside the regions",
  jobs=[dict(harness="c08.cpp", entry=e, quick=G1 + BIGS + wh([(5, 4), (3, 6), (6, 4)]), thorough=wh([(4, 5), (5, 5), (4, 7), (7, 5), (6, 6)] + ([(8, 8)] if e == "h_direction" else []))) for e in ("h_direction", "h_gravity")])
PROPS["C09"] = dict(
  harness={"c09.cpp": dict(sources=strat("density", "dzdensity", "proportionality", "hbar"))},
  bounds="every image of the listed sizes up to 5x5, 3x7, 7x3 (quick), 9x9 (thorough); proportionality for sizes up to 6x6 and 50x7",
  jobs=[
    dict(harness="c09.cpp", entry="h_density", quick=grid([1, 2, 3, 5], [1, 2, 4, 5]) + BIGS, thorough=grid([7, 8, 9], [6, 9])),
    dict(harness="c09.cpp", entry="h_band", quick=grid([1, 2, 3, 4, 5], [2, 3, 4, 5]) + wh([(3, 7), (7, 3), (6, 4)]) + BIGS, thorough=wh([(6, 6), (7, 6), (6, 8), (8, 5), (9, 9), (10, 4), (4, 10)])),
    dict(harness="c09.cpp", entry="h_prop", quick=grid([1, 2, 3, 6], [1, 2, 5, 6]) + wh([(50, 7)])),
    dict(harness="c09.cpp", entry="h_bar", quick=grid([1, 2, 3, 4], [1, 2, 4, 5], merge=3) + wh([(6, 6)], merge=3) + [dict(j, merge=3, part=min(j["part"], 6)) for j in BIGS], thorough=wh([(6, 8), (8, 8), (5, 12)], merge=3)),
  ])
import re as _re
ALLSTRAT = strat("alternations", "density", "dvdirection", "dvdirection2", "dvgravity", "dvgravity2", "dzdensity", "hbar", "hdirection", "hdirection2", "hgravity", "hgravity2", "proportionality", "proportionality_zone", "zone")
PROPS["C10"] = dict(
  harness={"c10.cpp": dict(sources=strat("alternations"))},
  bounds="every image of the listed sizes up to 6x4, 4x6, 7x3 (quick), 8x8, 12x5 (thorough)",
  jobs=[dict(harness="c10.cpp", entry="h_alt", quick=grid([1, 2, 3, 4, 5], [1, 2, 3, 4], merge=3) + wh([(6, 4), (4, 6), (3, 7), (7, 3), (6, 6), (8, 5)], merge=3) + [dict(j, merge=3, part=4) for j in BIGS], thorough=wh([(7, 7), (8, 8), (12, 5), (5, 12), (9, 9), (16, 12)], merge=3))])
def zfree(w, h):  # interior free, border alternating ink, so that several regions of both kinds occur
    free = 0; fixed = 0
    for y in range(h):
        for x in range(w):
            if 0 < x < w - 1 and 0 < y < h - 1: free |= 1 << (y * w + x)
            elif (x + y) % 4 != 1: fixed |= 1 << (y * w + x)
    return dict(w=w, h=h, free=free, fixed=fixed)
PROPS["C11"] = dict(
  harness={"c11.cpp": dict(sources=strat("zone", "proportionality_zone"))},
  bounds="every image up to 3x4, 4x3, 5x2 (quick) / 5x3, 3x5, 4x4 (thorough); interiors of 5x5, 6x4 (quick), 6x5, 5x6 (thorough) with a fixed border; contexts reused across two images of different sizes",
  jobs=[
    dict(harness="c11.cpp", entry="h_zone", quick=wh([(1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (3, 3), (2, 5), (5, 2), (4, 3), (3, 4)]) + wh([(3, 3), (4, 2)], order=1) + [zfree(5, 5), zfree(6, 4), zfree(5, 4), zfree(4, 5)] + big((40, 30, 4, (0, 4, 7)), (30, 30, 4, (0, 10)), (300, 3, 4, (0, 5)), (3, 300, 4, (0, 3)), (64, 64, 4, (7, 8)), (600, 2, 4, (5,)), (2, 600, 4, (3,))) + sweep(4, (0, 4, 7, 8)), thorough=[zfree(6, 5), zfree(5, 6)] + wh([(5, 3), (3, 5), (4, 4)]) + wh([(3, 4)], order=1)),
    dict(harness="c11.cpp", entry="h_reuse", quick=[dict(w=2, h=2, w2=3, h2=1), dict(w=3, h=2, w2=2, h2=2), dict(w=1, h=1, w2=3, h2=3), dict(w=3, h=3, w2=1, h2=2)], thorough=[dict(w=3, h=3, w2=3, h2=2)]),
  ])
PROPS["C12"] = dict(
  harness={"c12.cpp": dict(sources=ALLSTRAT)},
  bounds="every image of the listed sizes up to 4x4, 5x3, 1x9, 9x1 (quick), 6x5 (thorough); zone features up to 3x4; images of 32x24 to 512x512 with inked or blank halves and four free pixels",
  jobs=[
    dict(harness="c12.cpp", entry="h_scalar", quick=grid([1, 2, 3, 4], [1, 2, 3, 4]) + wh([(5, 3), (3, 5), (1, 9), (9, 1), (2, 7), (7, 2)]), thorough=wh([(5, 5), (6, 4), (4, 6), (1, 20), (20, 1)])),
    dict(harness="c12.cpp", entry="h_large", quick=wh([(32, 24), (9, 40), (64, 64)]), thorough=wh([(128, 100), (512, 512)])),
    dict(harness="c12.cpp", entry="h_tables", quick=grid([1, 2, 3, 4], [1, 2, 3, 4], merge=3) + wh([(5, 6), (7, 4)], merge=3), thorough=wh([(8, 8), (5, 11)], merge=3)),
    dict(harness="c12.cpp", entry="h_zones", quick=wh([(1, 1), (1, 2), (2, 2), (3, 3), (4, 2), (2, 5), (4, 3), (3, 4)]), thorough=wh([(5, 3), (4, 4)])),
  ])
PROPS["C13"] = dict(
  harness={"c13.cpp": dict(sources=ALLSTRAT)},
  bounds="every pair (triple) of scalar values of every feature and every threshold; every pair of tables with any 32-bit cells; share lists of up to 2 (quick) / 3 (thorough) percentages, symmetry of two-entry lists for percentages up to 7 (quick) / 15 (thorough)",
  jobs=[dict(harness="c13.cpp", entry=e, quick=[dict()]) for e in ("h_equal", "h_alt", "h_zone")] + [dict(harness="c13.cpp", entry="h_scalar", quick=[dict(feature=k) for k in range(20)])] + [
    dict(harness="c13.cpp", entry="h_shares", quick=[dict(n=0), dict(n=1), dict(n=2, sym=0), dict(n=2, hi=7), dict(n=1, m=2), dict(n=0, m=1)], thorough=[dict(n=3, sym=0), dict(n=2, m=3), dict(n=2, hi=15), dict(n=3, hi=5), dict(n=2)])])

STORE = ALLSTRAT
PROPS["C14"] = dict(
  harness={"c14.cpp": dict(sources=STORE)},
  bounds="pairs of images loaded one after the other, sizes up to 3x3, one of them with every content and the other fixed (both free for the smallest sizes); all 25 registered features",
  jobs=[dict(harness="c14.cpp", entry=e, quick=[dict(w=2, h=2, w2=3, h2=2), dict(w=3, h=3, w2=2, h2=2), dict(w=1, h=1, w2=2, h2=1, sym=3), dict(w=2, h=3, w2=1, h2=1, sym=3), dict(w=2, h=1, w2=2, h2=2, sym=3), dict(w=3, h=2, w2=4, h2=4, sym=1), dict(w=2, h=4, w2=2, h2=4), dict(w=2, h=2, w2=3, h2=3)] + ([dict(w=3, h=2, w2=2, h2=2, twice=1)] if e == "h_learn" else []), thorough=[dict(w=3, h=3, w2=3, h2=4), dict(w=2, h=2, w2=2, h2=3, sym=3), dict(w=4, h=3, w2=4, h2=3), dict(w=3, h=3, w2=5, h2=2)]) for e in ("h_learn", "h_recognise")])
PROPS["C15"] = dict(
  harness={"c15.cpp": dict(sources=STORE)},
  bounds="stores of 0..3 entries; one feature column at a time with every value up to 255 (two entries) or 99999 (one entry), share lists of up to 2 (quick) / 3 (thorough) values; every cut position before the last value",
  jobs=[
    dict(harness="c15.cpp", entry="h_roundtrip", quick=[dict(feature=k, n=2) for k in range(22)] + [dict(feature=k, n=1, top=99999) for k in (0, 5, 15, 19, 21)] + [dict(feature=22, n=1, cell=c, top=1000) for c in range(7)] + [dict(feature=23, n=1, cell=c, top=1000) for c in range(7)] + [dict(feature=24, n=1, shares=3, top=100), dict(feature=24, n=2, shares=2, top=9), dict(feature=0, n=0), dict(feature=3, n=3, top=10), dict(feature=1, n=1, dirty=1), dict(feature=24, n=1, dirty=1)], thorough=[dict(feature=23, n=1, allcells=1, top=9), dict(feature=22, n=1, allcells=1, top=9), dict(feature=22, n=2, cell=3, top=200), dict(feature=24, n=3, shares=2, top=12)]),
    dict(harness="c15.cpp", entry="h_two", quick=[dict(feature=k) for k in (0, 12, 22, 23)] + [dict(feature=24)]),
    dict(harness="c15.cpp", entry="h_cut", quick=[dict(feature=0), dict(feature=24)]),
  ])
GL = I + ["src/ppocr/loader2/glyphs_loader.cpp", "src/ppocr/loader2/image_io.cpp"]
PROPS["C16"] = dict(
  harness={"c16.cpp": dict(sources=GL)},
  bounds="0..2 glyphs with up to 2 views, images up to 3x2 (every byte value in some jobs), words and fonts of up to 2 arbitrary non-blank bytes, line information of every digit count; every cut position",
  jobs=[
    dict(harness="c16.cpp", entry="h_roundtrip", quick=[dict(n=0), dict(n=1, w=1, h=1), dict(n=2, w=2, h=1), dict(n=1, w=3, h=2, any=1, views=0), dict(n=1, w=1, h=2, views=2, len=2), dict(n=1, top=4294967295), dict(n=1, top=99), dict(n=1, any=1, w=2, h=2, len=2), dict(n=2, views=0, vary=1)], thorough=[dict(n=2, views=2, len=2), dict(n=3, views=1, len=2)]),
    dict(harness="c16.cpp", entry="h_single", quick=[dict(), dict(views=2)]),
    dict(harness="c16.cpp", entry="h_cut", quick=[dict(n=1), dict(n=2), dict(n=1, views=2), dict(n=1, w=3, h=2)], thorough=[dict(n=2, views=2), dict(n=1, len=2, views=2)]),
    dict(harness="c16.cpp", entry="h_order", quick=[dict()]),
  ])
PROPS["C17"] = dict(
  harness={"c17.cpp": dict(sources=GL + ["src/ppocr/ocr2/glyphs.cpp"])},
  bounds="up to 3 glyphs, up to 2 views each, words of up to 5 arbitrary non-blank bytes (lengths mixed up to 2, fixed lengths up to 5), looked-up texts of up to 5 bytes",
  jobs=[dict(harness="c17.cpp", entry="h_index", quick=[dict(n=1, len=2), dict(n=2, len=2), dict(n=1, lo=4, len=4, ask=0), dict(n=2, lo=4, len=4, ask=0), dict(n=1, lo=4, len=5, ask=4), dict(n=2, lo=1, len=1, views=2, ask=1), dict(n=3, len=1, ask=2), dict(n=2, lo=1, len=1, fonts=1, ask=0), dict(n=0), dict(n=1, lo=3, len=4, ask=5)], thorough=[dict(n=2, lo=1, len=4, ask=2), dict(n=2, lo=8, len=8, ask=0), dict(n=3, len=2, ask=2), dict(n=2, views=2, len=2)])])
GRP = ["src/ppocr/ocr2/data_indexes_by_words.cpp"]
PROPS["C18"] = dict(
  harness={"c18.cpp": dict(sources=GRP)},
  bounds="collections of up to 4 (quick) / 5 (thorough) glyphs with one or two views and any word identities",
  assumptions=["every glyph has at least one view"],
  jobs=[
    dict(harness="c18.cpp", entry="h_words", quick=[dict(n=n) for n in range(5)] + [dict(n=3, views=2)], thorough=[dict(n=5)]),
    dict(harness="c18.cpp", entry="h_classes", quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3), dict(n=4, views=1)], thorough=[dict(n=5, views=1), dict(n=4, views=2), dict(n=3, views=3)]),
  ])
PROPS["C19"] = dict(
  harness={"c19.cpp": dict(sources=STORE)},
  bounds="stores of up to 4 (quick) / 6 (thorough) entries with any value, value and distance whose sum fits 32 bits",
  jobs=[
    dict(harness="c19.cpp", entry="h_range", quick=[dict(n=n) for n in range(5)] + [dict(n=n, top=4294967295) for n in (1, 2, 3)], thorough=[dict(n=5), dict(n=6, top=4294967295)]),
    dict(harness="c19.cpp", entry="h_store", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)]),
  ])
OCR = GL + ["src/ppocr/ocr2/glyphs.cpp", "src/ppocr/ocr2/word_lines.cpp"]
DICT = ["src/ppocr/spell/dictionary.cpp"]
PROPS["C22"] = dict(
  harness={"c22.cpp": dict(sources=["src/ppocr/ocr2/filter_by_font.cpp"])},
  bounds="up to 4 positions (quick) / 6 (thorough) of up to 3 readings with any word and up to 4 fonts, also with one list shared by two positions",
  jobs=[dict(harness="c22.cpp", entry="h_font", quick=[dict(n=n) for n in range(4)] + [dict(n=2, views=3, fonts=3), dict(n=4, fonts=1, views=2), dict(n=3, same=1)], thorough=[dict(n=5, fonts=2), dict(n=4, views=3), dict(n=6, views=2, fonts=1)])])
PROPS["C24"] = dict(
  harness={"c24.cpp": dict(sources=DICT)},
  bounds="up to 3 words (quick) / 4 (thorough) of up to 3 characters of any byte values (one to four bytes each), blank entries and duplicates included; any looked-up text of up to the same length",
  assumptions=["words and texts are valid UTF-8 without NUL"],
  jobs=[dict(harness="c24.cpp", entry="h_member", quick=[dict(n=0), dict(n=1, len=3), dict(n=2, len=2), dict(n=3, len=1), dict(n=3, lo=2, len=2, letters=3, asklo=1), dict(n=2, lo=1, len=1, wide=4, asklo=1), dict(n=1, lo=1, len=2, wide=2)], thorough=[dict(n=3, len=2), dict(n=2, len=3), dict(n=4, lo=1, len=2, letters=2), dict(n=2, lo=1, len=2, wide=2)])])
PROPS["C25"] = dict(
  harness={"c25.cpp": dict(sources=DICT)},
  bounds="dictionaries of up to 2 (quick) / 3 (thorough) words of up to 3 characters over 2-3 letters (one with two-byte characters), up to 3 positions of up to 2-3 candidates of up to 2 characters",
  jobs=[dict(harness="c25.cpp", entry="h_word", quick=[dict(n=1), dict(n=2, len=2, letters=2), dict(n=1, pos=0), dict(n=1, pos=1, cand=2, clen=2, len=2), dict(n=1, pos=3, cand=2, len=3, letters=2, fixed=1), dict(n=1, pos=2, cand=1, clen=2, len=3, letters=2), dict(n=1, pos=2, cand=1, wide=2, letters=1), dict(n=0, pos=1)], thorough=[dict(n=3, len=2, letters=2, fixed=1), dict(n=2, pos=2, cand=2, clen=2, letters=2, len=3), dict(n=2, pos=3, cand=2, len=3, letters=2, fixed=1)])])
PROPS["C26"] = dict(
  harness={"c26.cpp": dict(sources=DICT)},
  bounds="dictionaries of up to 2 (quick) / 3 (thorough) words of up to 2 characters with any byte values; every separator of a fixed text replaced by every non-digit byte",
  jobs=[
    dict(harness="c26.cpp", entry="h_roundtrip", quick=[dict(n=0), dict(n=1, len=2), dict(n=2, lo=1, len=1), dict(n=2, lo=1, len=2, letters=2), dict(n=1, lo=1, len=1, wide=2, skipws=0), dict(n=1, len=1, dirty=1)], thorough=[dict(n=2, len=2), dict(n=3, lo=1, len=2, letters=2), dict(n=1, lo=1, len=1, wide=3)]),
    dict(harness="c26.cpp", entry="h_separator", quick=[dict()]),
  ])
PROPS["C27"] = dict(
  harness={"c27.cpp": dict(sources=OCR)},
  bounds="tables of up to 3 entries with words of up to 9 bytes and every class value 0..7, collections of up to 3 words",
  jobs=[
    dict(harness="c27.cpp", entry="h_table", quick=[dict(n=0), dict(n=2, len=2), dict(n=2, lo=7, len=9), dict(n=1, nonl=1), dict(n=3)]),
    dict(harness="c27.cpp", entry="h_lookup", quick=[dict(n=2, len=1), dict(n=1, glyphs=2, len=2), dict(n=0), dict(n=2, lo=8, len=9, glyphs=1, glo=8, glen=8), dict(n=1, lo=3, len=4, glyphs=1, glo=3, glen=5), dict(n=2, glyphs=1, glo=1, glen=1, lo=1, len=2)], thorough=[dict(n=3, glyphs=2), dict(n=2, len=2), dict(n=2, glyphs=3)]),
  ])
PROPS["C28"] = dict(
  harness={"c28.cpp": dict(sources=["src/ppocr/ocr2/replacement.cpp"])},
  bounds="texts of up to 4 bytes (any value; up to 6 over two letters), patterns of up to 2-3 bytes, replacements of up to 2 bytes, one or two rules; lists of up to 2 rules (quick) / 3 (thorough)",
  jobs=[
    dict(harness="c28.cpp", entry="h_replace", quick=[dict(), dict(alphabet=2, text=6, textlo=6, pat=2, patlo=1), dict(rules=2, text=3, rep=1), dict(alphabet=2, text=5, pat=3, patlo=3, rep=2), dict(alphabet=2, text=3, rules=2)], thorough=[dict(text=6), dict(rules=2, text=4), dict(alphabet=2, text=5, rules=2), dict(alphabet=2, text=8, textlo=8, pat=3, patlo=2, rep=1)]),
    dict(harness="c28.cpp", entry="h_list", quick=[dict(rules=0), dict(rules=1), dict(rules=2)], thorough=[dict(rules=3)]),
  ])
PROPS["C29"] = dict(
  harness={"c29.cpp": dict(sources=GL + ["src/ppocr/utils/image_compare.cpp", "harness/tool_normalize_glyphs.cpp"])},
  bounds="the tool itself on glyph files: up to 5 glyphs (quick) / 6 (thorough) over 1-3 files, images of every content of 1 to 6 pixels, also of two shapes, up to 2 (3) labels each over 2-3 words, 2 fonts and 2 line informations; run again on its own output",
  jobs=[dict(harness="c29.cpp", entry="h_normalize", quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=2, views=2, infos=1), dict(n=3, views=2), dict(n=4, views=2, fixviews=1, w=1), dict(n=3, mixed=1, fixviews=1), dict(n=3, w=3, h=2, fixviews=1), dict(n=4, files=3), dict(n=3, fixviews=1, fonts=1, infos=1), dict(n=5, fixviews=1)], thorough=[dict(n=6, fixviews=1, words=0, w=3), dict(n=3, fixviews=1, views=2, w=1, words=2), dict(n=4, views=2), dict(n=6, fixviews=1, w=1), dict(n=4, mixed=1, files=2)])])
PROPS["C30"] = dict(
  harness={"c30.cpp": dict(sources=STORE + IMGF[-1:] + GL[len(I):] + BOX[len(I):] + ["src/ppocr/utils/image_compare.cpp", "harness/tool_normalize_glyphs.cpp", "harness/tool_write_glyphs.cpp", "harness/tool_write_datas.cpp"])},
  bounds="the tools themselves (write_glyphs, normalize_glyphs, write_datas): one picture of every content up to 4x3 or two up to 3x1, with matching, missing and surplus words; glyph files of up to 3 glyphs with up to 2 labels; every luminance argument of up to 3 characters with colour pictures of up to 2 pixels",
  jobs=[
    dict(harness="c30.cpp", entry="h_pipeline", quick=[dict(w=1, h=1), dict(w=2, h=2), dict(w=3, h=2), dict(w=4, h=2, exact=1), dict(w=3, h=3, exact=1), dict(w=3, h=1, pictures=2), dict(w=3, h=2, normalize=1, exact=1), dict(w=5, h=1), dict(w=3, h=1, pictures=2, normalize=1, exact=1), dict(w=9, h=1, exact=1)], thorough=[dict(w=4, h=3, exact=1), dict(w=3, h=3), dict(w=2, h=5), dict(w=3, h=2, pictures=2, w2=2, exact=1), dict(w=3, h=1, pictures=3, normalize=1, exact=1), dict(w=6, h=2, exact=1)]),
    dict(harness="c30.cpp", entry="h_store", quick=[dict(n=n) for n in range(3)] + [dict(n=2, w=3, h=1, views=1)], thorough=[dict(n=2, h=3, views=1), dict(n=3, w=2, h=1), dict(n=2, w=3, h=2)]),
    dict(harness="c30.cpp", entry="h_default", quick=[dict(), dict(w=1), dict(w=1, all=1), dict(w=3), dict(w=2, pictures=2), dict(w=4, lo=120, hi=136)]),
    dict(harness="c30.cpp", entry="h_luminance", quick=[dict(), dict(w=1, junk=1, digits=2), dict(w=2, junk=40, digits=1), dict(w=1, all=1, digits=1)], thorough=[dict(w=1, all=1), dict(w=3, digits=2)]),
  ])
PROPS["C31"] = dict(
  harness={"c31.cpp": dict(sources=I)},
  bounds="every sequence of up to 3 (quick) / 4 (thorough) images of up to 3x2 with every byte value per pixel, each turned or not",
  jobs=[dict(harness="c31.cpp", entry="h_context", quick=[dict(n=0), dict(n=1, w=4, h=4), dict(n=2), dict(n=3, w=2, h=2), dict(n=3, w=3, h=1)], thorough=[dict(n=3), dict(n=4, w=2, h=2)])])
PROPS["C33"] = dict(
  harness={"c33.cpp": dict(sources=STORE)},
  bounds="sequences of up to 5 elements and every permutation; cursors over every 31-bit value; two store entries differing in any two features with every value; texts of up to 3 characters of every code point",
  jobs=[
    dict(harness="c33.cpp", entry="h_reindex", quick=[dict(n=n, strings=int(n < 4)) for n in (1, 2, 3, 4, 5)] + [dict(n=0)]),
    dict(harness="c33.cpp", entry="h_cursor", quick=[dict()]),
    dict(harness="c33.cpp", entry="h_range", quick=[dict(n=n) for n in (0, 1, 4)]),
    dict(harness="c33.cpp", entry="h_order", quick=[dict(a=k, b=k + 1) for k in range(24)] + [dict(a=0, b=24), dict(a=3, b=12), dict(a=12, b=22)]),
    dict(harness="c33.cpp", entry="h_utf8", quick=[dict(n=n) for n in (0, 1, 2)], thorough=[dict(n=3)]),
  ])
PROPS["C20"] = dict(
  harness={"c20.cpp": dict(sources=STORE + GRP)},
  bounds="selection: collections of up to 4 glyphs with one or two readings of up to three words, two simple features with values in and around the tolerance, one complex and one exclusive feature, up to two queries through the same buffers; registered features: pairs of learned images up to 3x2 / 4x3 and every queried image up to 4x3",
  jobs=[
    dict(harness="c20.cpp", entry="h_select", quick=[dict(n=1, span=6), dict(n=2), dict(n=2, bspan=1, span=3, views=2), dict(n=2, span=6, bfix=1, views=2), dict(n=3, bfix=1, span=2, cspan=2), dict(n=3, bfix=1, lo=9, span=2, cspan=3, eb=0, words=2), dict(n=3, lo=8, span=1, bspan=0, cspan=1, words=2), dict(n=2, queries=2, bfix=1, cspan=2, lo=8, span=3), dict(n=4, bfix=1, lo=8, span=1, cspan=0, eb=0)], thorough=[dict(n=3, bfix=1, lo=8, span=3, cspan=2), dict(n=2, span=6), dict(n=3, lo=9, span=2, bspan=1, cspan=1, views=2), dict(n=4, bfix=1, lo=8, span=2, cspan=2), dict(n=3, queries=2, bfix=1, cspan=1, lo=9, span=2)]),
    dict(harness="c20.cpp", entry="h_learned", quick=[dict(w=3, h=3, fixed=1), dict(w=3, h=2), dict(w=2, h=3, fixed=1, w2=3, h2=3), dict(w=2, h=2, w2=3, h2=2), dict(w=1, h=1), dict(w=1, h=3, w2=2, h2=1)], thorough=[dict(w=4, h=3, fixed=1, w2=4, h2=3), dict(w=2, h=5, fixed=1), dict(w=2, h=3, w2=3, h2=2)]),
    dict(harness="c20.cpp", entry="h_tolerance", quick=[dict(), dict(w=2), dict(w=3, h=4), dict(fixed=0x1ef, fixed2=0xad), dict(w=4, h=3, fixed=0x999, fixed2=0xfff)], thorough=[dict(w=4, h=3, fixed=0x69f, fixed2=0xf6f), dict(w=3, h=4, fixed=0xbef, fixed2=0xf7d), dict(w=2, h=6, fixed=0xfbf, fixed2=0xffe)]),
  ])
PROPS["C21"] = dict(
  harness={"c21.cpp": dict(sources=OCR + ["src/ppocr/ocr2/filter_by_lines.cpp"])},
  bounds="one or two positions with every list of up to 2-3 readings of three words, three or four positions with fixed lists of two or three readings; two or three words with line classes, every class value; box tops in a window of 2-5 rows and heights of 1-4 (see jobs); also one list shared by two positions and positions near 2^32",
  jobs=[dict(harness="c21.cpp", entry="h_lines", quick=[dict(n=0), dict(n=1), dict(n=1, views=3, words=3), dict(n=2, tops=3, heights=1), dict(n=2, tops=1, heights=2), dict(n=2, share=1, tops=2, heights=1), dict(n=2, tops=3, heights=3, amb=1, fixed=1, cycle=2), dict(n=2, tops=2, heights=1, low=4294967290), dict(n=3, amb=1, fixed=1, cycle=2, tops=3, heights=1), dict(n=3, amb=3, fixed=1, cycle=2, tops=2, heights=1, words=3), dict(n=3, amb=2, fixed=1, cycle=3, views=3, tops=2, heights=1), dict(n=4, amb=2, fixed=1, cycle=2, tops=1, heights=1)], thorough=[dict(n=3, amb=3, fixed=1, cycle=2, tops=2, heights=2, below=1), dict(n=2, tops=2, heights=2), dict(n=2, share=1, tops=2, heights=2), dict(n=2, amb=1, fixed=1, cycle=2), dict(n=3, amb=1, fixed=1, cycle=2, tops=2, heights=2), dict(n=3, amb=3, fixed=1, cycle=2, tops=1, heights=2), dict(n=3, tops=1, heights=1, ids=1)])])
PROPS["C23"] = dict(
  harness={"c23.cpp": dict(sources=OCR + DICT + ["src/ppocr/ocr2/disambiguous_with_dict.cpp"])},
  bounds="up to 3 (quick) / 4 (thorough) positions of up to 2 readings from pools of three or four words (letters, ligatures, two-byte characters, punctuation), every set of word gaps, dictionaries of 0 to 4 words",
  jobs=[dict(harness="c23.cpp", entry="h_text", quick=[dict(n=n) for n in range(3)] + [dict(n=3, views=1, pool=p, dict=d) for p, d in ((0, 0), (1, 2), (2, 1), (3, 3))] + [dict(n=3, pool=0, dict=3)], thorough=[dict(n=4, views=1, pool=p, dict=d) for p, d in ((0, 3), (1, 2), (2, 1), (3, 3))]),
    dict(harness="c23.cpp", entry="h_mark", quick=[dict()]),
    dict(harness="c23.cpp", entry="h_break", quick=[dict(), dict(two=1), dict(two=1, high=1)])])
PROPS["C32"] = dict(
  harness={"c32.cpp": dict(sources=STORE + IMGF[-1:] + BOX[len(I):] + OCR[len(I):] + DICT + GRP + ["src/ppocr/utils/image_compare.cpp", "src/ppocr/ocr2/filter_by_lines.cpp", "src/ppocr/ocr2/filter_by_font.cpp", "src/ppocr/ocr2/disambiguous_with_dict.cpp", "harness/tool_ocr2_extract_text.cpp"])},
  bounds="the tool itself: every picture up to 10x1, 6x2 and 4x3 (plus a gap of five columns anywhere), two to four learned shapes, two words for one shape, word-line tables with free classes, a small dictionary; every connected character of up to 3x3 (quick) / 4x3, 2x5 (thorough) learned and shown alone, with and without margins",
  jobs=[
    dict(harness="c32.cpp", entry="h_text", quick=[dict(w=1, h=1), dict(w=3, h=2), dict(w=8), dict(w=6, h=2), dict(w=7, wide=1), dict(w=4, h=2, wide=1), dict(w=4, h=3, n=3), dict(w=10, twin=1), dict(w=3, h=2, extra=2, n=3, twin=1), dict(w=4, h=2, extra=1, same=0, classes=3, kinds=1), dict(w=4, h=2, extra=3, same=0, twin=1, free=1), dict(w=3, h=3, first=2, n=4, same=0, extra=1, kinds=2, free=1), dict(w=4, h=2, extra=1, same=0, free=4, classes=1, kinds=1)], thorough=[dict(w=7, h=2), dict(w=5, h=3, n=4), dict(w=6, h=2, wide=1), dict(w=12, twin=1, n=4), dict(w=3, h=2, extra=1, same=0, free=4, classes=3, kinds=1), dict(w=4, h=2, extra=3, same=0, twin=1, free=2), dict(w=4, h=3, first=2, n=6, extra=3, same=0, free=0)]),
    dict(harness="c32.cpp", entry="h_alone", quick=[dict(w=1, h=1), dict(), dict(w=3, h=2, after=1), dict(w=3, h=3, split=1), dict(w=2, h=3, margin=6, before=0, split=1), dict(w=4, h=2, ow=2, oh=2, obits=15, split=1)], thorough=[dict(w=2, h=5, margin=6, split=1), dict(w=4, h=3, split=1, after=1), dict(w=4, h=2, ow=2, oh=2, obits=15), dict(w=2, h=6, split=1, margin=0)]),
    dict(harness="c32.cpp", entry="h_colour", quick=[dict(), dict(w=1), dict(w=1, all=1), dict(w=3, lo=110, hi=140), dict(w=4, lo=120, hi=136)]),
    dict(harness="c32.cpp", entry="h_mismatch", quick=[dict()]),
  ])
NOT_APPLICABLE = {}
PROPS["C34"] = dict(
  harness={"c34.cpp": dict(sources=DICT + ["harness/tool_make_trie_dictionary.cpp"])},
  bounds="the tool itself on up to three word files of up to 2 lines, words of up to 2 characters (any ASCII, or multi-byte), with and without final newline, missing files and a file named twice",
  jobs=[dict(harness="c34.cpp", entry="h_tool", quick=[dict(), dict(files=1, lines=2), dict(files=1, len=2), dict(files=3, linelo=1, lo=1, letters=2, tail=0), dict(files=2, missing=1, linelo=1, letters=2), dict(files=1, wide=2, lo=1, linelo=1, ask=1), dict(files=1, again=1, lines=2, letters=2)], thorough=[dict(files=2, lines=2, letters=2), dict(files=2, len=2, linelo=1, tail=0)]),
    dict(harness="c34.cpp", entry="h_usage", quick=[dict()])])

PROPS["C35"] = dict(
  harness={"c35.cpp": dict(sources=IMGF + BOX[len(I):] + ["harness/tool_show_glyphs.cpp"])},
  bounds="the tool itself: one picture of every content up to 4x3, two or three small ones, an unreadable one at any place; every luminance argument of up to 3 characters with colour pictures of up to 2 pixels",
  jobs=[
    dict(harness="c35.cpp", entry="h_show", quick=[dict(w=1, h=1), dict(w=2, h=2), dict(w=3, h=2), dict(w=4, h=2), dict(w=3, h=3), dict(w=9, h=1), dict(w=3, h=1, pictures=2), dict(w=2, h=2, pictures=2, w2=3, h2=1), dict(w=2, h=1, pictures=3), dict(w=2, h=1, pictures=2, bad=2), dict(w=2, h=1, pictures=3, bad=2), dict(w=1, h=1, pictures=1, bad=1)], thorough=[dict(w=4, h=3), dict(w=3, h=4), dict(w=6, h=2), dict(w=3, h=2, pictures=2), dict(w=2, h=2, pictures=3, bad=3)]),
    dict(harness="c35.cpp", entry="h_default", quick=[dict(), dict(w=1), dict(w=1, all=1), dict(w=3), dict(w=2, pictures=2), dict(w=4, lo=120, hi=136)]),
    dict(harness="c35.cpp", entry="h_luminance", quick=[dict(), dict(w=1, junk=1, digits=2), dict(w=2, junk=40, digits=1), dict(w=1, all=1, digits=1)], thorough=[dict(w=1, all=1), dict(w=3, digits=2)]),
    dict(harness="c35.cpp", entry="h_usage", quick=[dict()]),
  ])
PROPS["C36"] = dict(
  harness={"c36.cpp": dict(sources=[])},
  bounds="up to 3 words (quick) / 4 (thorough) of up to 3 characters of any byte value, every followed text of up to the same length",
  assumptions=["the words are sorted by the order of their characters, distinct and not empty"],
  jobs=[dict(harness="c36.cpp", entry="h_trie", quick=[dict(n=0), dict(n=1, len=3, copy=1), dict(n=2, len=2), dict(n=2, len=3, letters=2, copy=1), dict(n=3, len=1), dict(n=3, lo=2, len=2, letters=3), dict(n=4, len=2, letters=2), dict(n=3, len=2, letters=2, node=1), dict(n=2, len=3, node=1)], thorough=[dict(n=3, len=2), dict(n=2, len=3), dict(n=4, len=3, letters=2), dict(n=5, len=2, letters=2)])])

PROPS["C39"] = dict(
  harness={"c39.cpp": dict(sources=I)},
  bounds="every image up to 6x2 and 3x4 of any bytes, every range start, length and strip height in it (quick); 9x2, 5x4 (thorough)",
  jobs=[dict(harness="c39.cpp", entry="h_rows", quick=wh([(1, 1), (3, 2), (6, 2)]) + wh([(1, 2), (2, 3), (4, 3), (3, 4)], strip=1) + big((300, 2, 4, (5, 6, 1)), at=1) + big((30, 9, 4, (0, 6)), at=3, strip=1) + big((12, 3, 3, (0,)), strip=1), thorough=wh([(9, 2)]) + wh([(5, 4), (7, 2)], strip=1))])
PROPS["C37"] = dict(
  harness={"c37.cpp": dict(sources=PROPS["C32"]["harness"]["c32.cpp"]["sources"] + ["harness/tool_normalize_glyphs.cpp", "harness/tool_write_glyphs.cpp", "harness/tool_write_datas.cpp", "harness/tool_show_glyphs.cpp", "harness/tool_make_trie_dictionary.cpp"])},
  bounds="the tools themselves: every argument count up to 6 with any names; any one file of up to 5 missing; any stray byte before any one number of glyph files of up to 12 glyphs, stores of up to 2 entries and word-line files of up to 12 lines; files of up to 4 bytes read partly; up to 3 glyphs against up to 3 store entries",
  assumptions=["a stray byte is none of the digits, blanks, signs, or (in a store) the point"],
  jobs=[
    dict(harness="c37.cpp", entry="h_usage", quick=[dict(tool=t) for t in range(6)], thorough=[dict(tool=t, most=16) for t in range(1, 3)]),
    dict(harness="c37.cpp", entry="h_missing", quick=[dict(tool=0), dict(tool=0, files=3), dict(tool=1), dict(tool=2), dict(tool=2, files=3), dict(tool=3), dict(tool=3, files=2), dict(tool=3, files=3)] + [dict(tool=t, none=1, files=2) for t in (0, 2, 3)], thorough=[dict(tool=0, files=8), dict(tool=2, files=5)]),
    dict(harness="c37.cpp", entry="h_damaged", quick=[dict(tool=0), dict(tool=0, n=1, views=0), dict(tool=0, n=3, views=2, order=1), dict(tool=1), dict(tool=1, n=3, views=2), dict(tool=1, n=1, views=0), dict(tool=2), dict(tool=2, n=3), dict(tool=3, n=1), dict(tool=3, n=2), dict(tool=4), dict(tool=4, n=3), dict(tool=0, n=6, views=2), dict(tool=1, n=6, views=2), dict(tool=2, n=12), dict(tool=4, n=12)] + [dict(tool=t, sound=1) for t in (0, 1, 2)], thorough=[dict(tool=3, n=6), dict(tool=0, n=30, views=3), dict(tool=1, n=30, views=2)]),
    dict(harness="c37.cpp", entry="h_left", quick=[dict(n=n) for n in (0, 1, 4)], thorough=[dict(n=12)]),
    dict(harness="c37.cpp", entry="h_mismatch", quick=[dict()], thorough=[dict(most=6)]),
  ])
PROPS["C40"] = dict(
  harness={"c40.cpp": dict(sources=STORE + IMGF[-1:] + BOX[len(I):] + OCR[len(I):] + DICT + ["src/ppocr/utils/image_compare.cpp", "harness/tool_extract_text6.cpp", "harness/tool_extract_text8.cpp"])},
  bounds="the tools themselves: every picture up to 8x1, 6x2, 4x3 and 3x3 (plus a gap of five columns anywhere), parts of pictures up to 60x3, two to ten learned shapes, shapes with several words, words with several shapes, one shape learned twice, a small dictionary; learned shapes of up to 16x20 shown with up to 10 free pixels; every connected character of up to 3x3 (quick) / 4x3 (thorough) learned among up to 70 others and shown alone, with and without margins",
  jobs=[
    dict(harness="c40.cpp", entry="h_text", quick=[dict(tool=t, **k) for t in (6, 8) for k in (dict(w=1), dict(w=6, h=2), dict(w=4, h=2, n=3), dict(w=8, twin=4), dict(w=4, h=3, n=4, twin=3), dict(w=7, wide=1), dict(w=4, h=2, dict=1, twin=1), dict(w=6, dict=1, twin=7), dict(w=6, dict=2, twin=1), dict(w=3, n=0), dict(w=6, dict=2, twin=1, mark=1), dict(w=6, dict=2, twin=1, mark=2), dict(w=6, dict=2, twin=1, mark=3), dict(w=6, dict=2, twin=1, mark=4), dict(w=6, dict=2, twin=1, mark=5), dict(w=6, dict=2, twin=1, mark=6), dict(w=6, dict=2, twin=1, mark=7), dict(w=5, wide=1, dict=1, twin=3), dict(w=3, h=3, n=10, first=4), dict(w=3, h=3, n=10, twin=7), dict(w=40, part=4, kind=5), dict(w=60, h=3, part=3, kind=0, n=10), dict(w=60, h=3, part=3, kind=0, n=10, dict=1, twin=5), dict(w=300, part=3, kind=5), dict(w=270, h=5, part=3, kind=0, n=10))], thorough=[dict(tool=t, **k) for t in (6, 8) for k in (dict(w=12, twin=4, n=3), dict(w=5, h=3, n=4, twin=1), dict(w=7, h=2, dict=1), dict(w=6, h=2, wide=1, twin=2), dict(w=5, h=3, n=8, first=2))]),
    dict(harness="c40.cpp", entry="h_near", quick=[dict(tool=6, w=12, h=12, shape=1, seed=5, free=9, n=9), dict(tool=6, w=10, h=10, shape=2, seed=4, free=9, n=9), dict(tool=6, w=12, h=12, shape=2, n=8, free=10), dict(tool=6, w=12, h=12, shape=1, seed=5, free=7, n=26, more=0, peers=0, dict=1), dict(tool=6, w=14, h=14, shape=1, seed=8, free=7, n=26, more=0, peers=0, dict=1), dict(tool=6, w=12, h=12, shape=1, seed=3, free=7, n=26, more=0, dict=2), dict(tool=6, w=12, h=12, shape=1, seed=5, free=9, n=9, peers=0, dict=1), dict(tool=6, w=12, h=12, shape=1, n=90, more=0, peers=0, free=3, flip=12), dict(tool=8, w=12, h=12, shape=1, n=90, more=0, peers=0, free=3, flip=12), dict(tool=6, w=20, h=12, shape=2, n=140, more=0, peers=0, free=2, flip=24)] + [dict(tool=8, **k) for k in (dict(w=12, h=12, shape=2, n=8, free=10), dict(), dict(shape=1), dict(w=12, h=12, n=8, free=5), dict(w=12, h=12, shape=3, n=8, more=0, free=5), dict(w=16, h=20, shape=2, n=12, more=0), dict(w=16, h=20, shape=1, n=12, more=0, peers=0), dict(w=10, h=14, shape=3, seed=3, n=10, free=5), dict(w=20, h=10, shape=1, seed=2, n=10, free=5), dict(w=12, h=12, shape=1, seed=2, free=6, n=9, more=0), dict(w=12, h=12, shape=1, seed=5, free=6, n=26, more=0, peers=0, dict=1), dict(w=14, h=14, shape=3, seed=1, free=6, n=20, more=0, dict=2))], thorough=[dict(tool=t, w=16, h=16, shape=sh, seed=sd, n=14, free=11) for t in (6, 8) for sh in (1, 2, 3) for sd in (1, 5)]),
    dict(harness="c40.cpp", entry="h_alone", quick=[dict(tool=t, **k) for t in (6, 8) for k in (dict(w=1, h=1), dict(split=0), dict(w=3, h=2, split=0), dict(w=3, h=3), dict(w=3, h=2, before=3, after=1, split=0), dict(before=70), dict(margin=6, w=2, h=3), dict(w=2, h=3, margin=0, before=0))], thorough=[dict(tool=t, **k) for t in (6, 8) for k in (dict(w=4, h=3, after=1), dict(w=2, h=5, before=20), dict(w=3, h=2, before=140))]),
    dict(harness="c40.cpp", entry="h_refuse", quick=[dict(tool=6), dict(tool=8)]),
  ])

# Larger inputs: few=N leaves N inputs free (see harness/common.hpp) and fixes the rest; seeds=K repeats the job with K different fixed parts and positions of the free ones.
SCALE = {
"C35": {"h_show": "w=60 h=12 part=4 kind=0; w=120 h=9 part=3 kind=0; w=300 h=3 part=3 kind=5; w=30 h=20 part=3 kind=10 pictures=2 w2=9 h2=14; w=9 h=300 part=3 kind=1; w=40 h=30 part=4 kind=7"},
"C36": {"h_trie": "n=30 len=6 few=4 step=29 letters=3 seeds=3; n=100 len=4 few=3 step=97 letters=4 lo=2 ask=3; n=3 lo=30 len=30 few=5 step=21; n=300 len=2 few=2 step=301; n=12 len=4 few=4 step=9 copy=1; n=10 lo=15 len=17 letters=2 few=6 step=31; n=60 len=1 few=3 step=37; n=20 len=5 few=4 step=13 seeds=2"},
"C01": {"h_packed": "w=300 h=5; w=64 h=64; w=513 h=9; w=1 h=300; w=2000 h=2; w=9 h=3 short=1 few=9; w=9 h=1 comments=6 clen=20 few=6 step=21; w=5 h=1 comments=1 clen=300 few=4 step=83; w=2049 h=16 few=5 step=501",
        "h_rgb": "w=40 h=10; w=300 h=1; w=5 h=100; w=1 h=40 few=5 step=23 comments=3 clen=10; w=100 h=100 few=3 step=9001",
        "h_ascii": "w=300 h=1 few=4 step=131; w=20 h=20 gaps=3 few=5 step=91; w=17 h=3 gaps=0 few=10 step=3; w=71 h=2 gaps=0 few=8 step=17 type=3 max=1; w=100 h=50 gaps=0 few=8 step=501; w=17 h=4 gaps=3 few=4 step=31 seeds=3"},
"C02": {"h_shrink": "kind=4 few=8 step=7; kind=5 few=8 step=9; kind=6 few=6 step=11; kind=7 few=6 step=9",
        "h_tail": "type=4 w=64 h=64 n=512 few=6 step=91; type=4 w=64 h=64 n=513 few=6 step=91; type=4 w=64 h=64 n=511 few=6 step=91; type=6 w=20 h=20 n=1200 few=8 step=71; type=6 w=20 h=20 n=1201 few=8 step=71; type=6 w=20 h=20 n=1199 few=8 step=71; type=4 w=300 h=7 n=266; type=4 w=300 h=7 n=265; type=6 w=300 h=100 n=90000 few=6 step=14001"},
"C03": {"h_section": "w=12 h=10; w=30 h=4; w=4 h=30", "h_rotate": "w=40 h=30; w=64 h=64; w=300 h=3; w=3 h=300; w=17 h=23; w=33 h=16; w=100 h=1", "h_equal": "w=20 h=20; w=300 h=2; w=100 h=100 part=8", "h_access": "w=20 h=9; w=40 h=4", "h_print": "w=60 h=20; w=300 h=2", "h_fromstr": "w=40 h=10 few=8 step=40; w=300 h=2 few=8 step=70"},
"C04": {"h_pair": "w=64 h=40 part=6 kind=0; w=300 h=3 part=6 kind=1; w=20 h=20 part=8 kind=4; w=300 h=1 w2=44 h2=1 part=2; w=256 h=2 w2=512 h2=1 part=2; w=128 h=2 w2=128 h2=258 part=2; w=17 h=9 part=6 kind=8", "h_triple": "w=40 h=30 part=3; w=300 h=2 part=3 kind=1", "h_cache": "n=16 few=4 step=17 w=3 h=3 seeds=3; n=40 few=4 step=31 w=3 h=1"},
"C12": {"h_tables": "w=40 h=30 part=4 kind=0 merge=3; w=64 h=100 part=3 kind=4 merge=3", "h_scalar": "w=40 h=30 part=6 kind=0; w=64 h=100 part=5 kind=4; w=300 h=9 part=5 kind=0; w=9 h=300 part=5 kind=1; w=31 h=17 part=6 kind=9"},
"C13": {"h_shares": "n=12 m=12 few=4 step=7 hi=100 sym=0; n=20 m=20 few=4 step=9 hi=100 sym=0; n=6 sym=0 few=5 step=3; n=40 m=40 few=2 step=30 hi=100 sym=0; n=7 m=9 few=5 step=3; n=9 m=7 few=5 step=3; n=12 m=11 few=4 step=5 hi=100; n=20 m=1 few=4 step=5"},
"C14": {"h_learn": "sym=3 w=24 h=16 w2=17 h2=30 part=2; sym=3 w=64 h=40 w2=9 h2=11 part=2; sym=3 w=9 h=11 w2=64 h2=40 part=2 kind=5; sym=3 w=30 h=30 w2=30 h2=30 part=2 kind=7 twice=1; sym=3 w=20 h=20 w2=20 h2=20 part=2 kind=6; sym=3 w=13 h=21 w2=40 h2=5 part=3 kind=8", "h_recognise": "sym=3 w=24 h=16 w2=17 h2=30 part=2; sym=3 w=64 h=40 w2=9 h2=11 part=2 kind=5; sym=3 w=9 h=11 w2=64 h2=40 part=2 kind=0; sym=3 w=30 h=30 w2=30 h2=30 part=2 kind=7; sym=3 w=13 h=21 w2=40 h2=5 part=3 kind=8"},
"C15": {"h_roundtrip": "feature=24 n=3 shares=14 top=100 few=6 step=9 seeds=3; feature=24 n=2 shares=40 top=100 few=5 step=20; feature=0 n=40 few=4 step=11 top=300; feature=22 n=12 cell=5 few=4 step=3 top=1000; feature=23 n=12 cell=2 few=4 step=3 top=1000; feature=15 n=30 few=4 step=9; feature=21 n=30 few=3 step=10; feature=3 n=300 few=3 step=100 top=9; feature=24 n=20 shares=6 top=50 few=5 step=11", "h_two": "feature=24 shares=9 few=4 step=3 top=40"},
"C16": {"h_roundtrip": "n=4 vary=2 views=2; n=5 vary=2 views=3 few=9 step=4 len=2; n=20 few=9 step=13 w=3 h=3 len=3 vary=2 seeds=3; n=2 len=40 few=6 step=17 views=2 fill=2; n=1 views=12 few=8 step=7 len=2; n=6 views=3 vary=1 few=8 step=9; n=1 w=50 h=40 part=6; n=1 w=300 h=2 part=4; n=1 len=300 few=4 step=97 fill=2; n=3 w=2 h=300 part=4; n=3 views=2 len=70 few=6 step=19 seeds=3; n=100 few=5 step=61", "h_single": "views=2 vary=2; views=9 few=8 step=5; views=3 few=6 step=4 w=40 h=20", "h_cut": "n=6 views=3 few=2 step=19; n=1 w=20 h=6 part=2 few=1 phase=200; n=2 len=20 few=3 fill=2 phase=12; n=4 vary=2 views=2 few=6"},
"C17": {"h_index": "n=20 views=2 len=6 few=5 step=9; n=3 lo=30 len=40 few=6 step=17 ask=0; n=2 views=10 len=3 few=5 step=7; n=30 few=5 step=11 letters=35 len=3 ask=3 seeds=3; n=4 lo=4 len=4 few=6 step=3 ask=4; n=2 lo=16 len=16 ask=16 few=6 step=7; n=50 few=4 step=21 len=9 fill=3 ask=9; n=3 lo=15 len=17 letters=33 few=6 ask=17; n=12 lo=4 len=12 letters=33 few=8 step=2 fonts=1 ask=0; n=8 lo=7 len=9 letters=34 few=6 step=11 seeds=2 ask=0; n=4 lo=200 len=260 letters=33 few=5 step=2 ask=0"},
"C18": {"h_words": "n=60 few=2 fill=1 phase=59; n=20 few=2 step=13 words=3; n=16 few=3 step=6 words=3; n=16 few=2 step=9 words=2 phase=5 seed=2; n=40 few=1 phase=7 fill=1 words=1; n=24 few=1 phase=31 words=5 views=2", "h_classes": "n=40 views=2 few=3 step=13 words=2 seeds=2; n=20 views=1 few=4 step=5 words=5; n=40 few=4 step=11 phase=2 words=3 views=4; n=30 fill=3 few=3 step=20 phase=4 views=20; n=30 views=1 few=3 phase=50 fill=1; n=20 few=4 step=9 views=2 fill=6 words=2; n=100 views=3 few=2 step=87 words=4"},
"C19": {"h_range": "n=40 few=3 step=15 fill=3 top=1000; n=60 few=3 step=20 phase=59 fill=5; n=40 few=4 step=12 phase=4 fill=1; n=33 few=3 step=11 phase=11 fill=2; n=100 few=2 phase=99 fill=6; n=17 few=3 phase=16 fill=1; n=20 few=3 phase=19 fill=3 top=50; n=24 few=2 phase=24 top=5; n=40 few=2 phase=40 fill=6 top=500 seeds=2; n=18 few=3 phase=17 fill=6 top=30; n=270 few=1 phase=269 fill=5; n=270 few=1 phase=269; n=600 few=1 phase=599 fill=6", "h_store": "n=20 few=2 phase=20 fill=1; n=20 few=2 phase=20 seeds=2"},
"C20": {"h_select": "n=12 few=4 step=11 words=4 seeds=3; n=8 few=5 step=7 words=2 views=2 seeds=3; n=20 few=3 step=31 words=6 fill=6; n=10 few=4 step=12 lo=9 span=2 bspan=1 words=3 seeds=3; n=12 few=3 step=9 phase=5 lo=9 span=1 bspan=1 cspan=2 words=7; n=20 few=3 step=23 lo=9 span=1 bspan=1 cspan=1 words=1 fill=1; n=10 queries=2 few=4 step=13 lo=8 span=3 bspan=2 words=2 seeds=2; n=12 few=4 step=13 lo=8 span=4 bspan=4 words=1 seeds=4", "h_learned": "w=24 h=16 w2=17 h2=30 part=2; w=9 h=11 w2=30 h2=24 part=2 kind=5; w=20 h=20 w2=20 h2=20 part=2 kind=10; w=31 h=40 w2=31 h2=40 part=2 kind=8"},
"C21": {"h_lines": "n=10 few=4 step=7 views=3 words=3 tops=3 heights=3 seeds=3; n=12 few=4 step=9 phase=4 views=3 words=3 tops=5 heights=4 seeds=4; n=8 few=5 step=5 views=2 words=3 seeds=3; n=20 few=3 step=17 phase=2 views=3 words=3 tops=2 heights=2 seeds=3; n=12 few=4 step=9 phase=4 views=3 words=2 tops=5 heights=4 seeds=3; n=6 few=6 step=3 views=3 words=3 low=200 tops=2 heights=2 seeds=3; n=10 few=6 views=2 words=2 tops=1 heights=1 seeds=4 below=1"},
"C22": {"h_font": "n=12 few=6 step=5 seeds=3; n=12 few=5 step=7 views=5 fonts=3 seeds=3; n=20 few=5 step=9 phase=2 views=2 seeds=3; n=9 few=6 step=4 views=1 fonts=4; n=30 few=4 step=13 fonts=6 views=3 seeds=3; n=3 views=20 few=5 step=11; n=14 few=6 step=3 views=1 fonts=1 seeds=3; n=10 few=5 step=4 fonts=2 views=2 fill=3 seeds=3"},
"C23": {"h_text": "n=10 few=5 step=5 pool=0 dict=3 seeds=3; n=12 few=5 step=6 phase=1 pool=1 dict=2 views=3 seeds=3; n=9 few=6 step=4 views=1 pool=2 dict=1 seeds=2; n=20 few=4 step=11 views=1 pool=3 dict=3 seeds=2; n=20 few=4 step=7 phase=3 views=2 pool=1 dict=0; n=40 few=4 step=29 views=2 pool=0 dict=3; n=12 few=4 step=5 views=2 pool=0 dict=1 seeds=2"},
"C24": {"h_member": "n=30 len=6 few=4 step=29 letters=3 lo=1 seeds=3; n=100 len=4 few=3 step=97 letters=4 lo=2 ask=3; n=3 lo=30 len=30 few=5 step=21 seeds=2; n=20 len=12 few=4 step=31 wide=4 seeds=2; n=60 lo=1 len=2 few=3 step=37; n=40 len=3 wide=3 letters=2 few=4 step=17 seeds=2; n=300 lo=1 len=2 few=3 step=301 ask=2 fill=0; n=12 lo=1 len=1 few=4 step=7 wide=4 seeds=2; n=10 lo=15 len=17 letters=2 few=6 step=31 seeds=2"},
"C25": {"h_word": "n=20 len=5 few=4 step=17 letters=2 pos=5 cand=3 seeds=3; n=6 len=12 few=4 step=13 letters=2 pos=9 cand=2 seeds=3; n=2 len=30 fill=3 few=3 step=21 pos=12 cand=2 fixed=1 letters=2; n=8 len=6 few=5 step=7 letters=1 pos=5 cand=2 seeds=2; n=5 wide=2 len=6 few=5 step=8 letters=2 pos=4 cand=3 seeds=3; n=12 len=7 few=4 step=11 letters=2 pos=4 cand=3 clen=3 seeds=3; n=10 len=8 letters=1 pos=8 cand=1 few=4 step=5"},
"C26": {"h_roundtrip": "n=30 len=6 few=3 step=29; n=100 len=4 few=2 step=197 letters=4 lo=2; n=3 lo=30 len=30 few=3 step=21; n=20 len=12 few=4 step=31 wide=4; n=60 lo=1 len=1 few=3 step=37 wide=3; n=12 len=4 few=3 step=9 dirty=1 seeds=2"},
"C27": {"h_table": "n=30 len=9 few=8 step=13 seeds=2; n=40 len=8 few=4 step=30 phase=3; n=6 lo=6 len=20 few=8 step=6; n=3 lo=30 len=30 few=8 step=5; n=300 len=3 few=5 step=311", "h_lookup": "n=20 glyphs=20 len=2 few=4 step=17 fill=3; n=30 glyphs=3 len=9 few=4 step=29 seeds=2; n=12 glyphs=12 len=8 lo=8 glo=8 glen=8 few=4 step=23 fill=3; n=40 glyphs=5 len=1 few=3 step=31; n=10 glyphs=10 len=1 fill=4 few=4 step=9"},
"C28": {"h_replace": "alphabet=2 text=30 textlo=30 pat=3 patlo=3 rep=6 few=5 step=11 rules=3 seeds=3; alphabet=1 text=20 textlo=20 pat=3 rep=4 few=4 step=9 rules=2 seeds=2; text=40 textlo=40 alphabet=2 pat=12 patlo=9 fill=3 few=6 step=8 rep=20; alphabet=2 text=9 rules=30 few=4 step=23 pat=2 patlo=1 rep=3 seeds=3; text=300 textlo=300 alphabet=2 pat=2 patlo=1 few=4 step=83 seeds=3; alphabet=2 text=60 textlo=50 pat=4 patlo=2 replo=3 rep=9 few=8 step=7 seeds=3; text=100 textlo=100 pat=1 patlo=1 replo=40 rep=40 alphabet=2 few=6 step=13 seeds=2", "h_list": "rules=30 few=5 step=19 seeds=3; rules=12 pat=30 rep=40 few=4 step=23; rules=100 few=3 step=97; rules=5 few=5 step=7 rep=0; rules=8 pat=3 rep=9 few=5 step=7 seeds=3; rules=6 fill=1 few=4 step=5; rules=6 fill=2 few=4 step=5"},
"C29": {"h_normalize": "n=20 few=4 step=19 views=3 w=2 h=2 seeds=3; n=30 few=4 step=31 views=2 w=3 words=3 seeds=2; n=12 few=5 step=11 views=2 w=2 files=4; n=17 few=3 step=13 fixviews=1 fill=1; n=24 few=3 step=29 w=6 h=5 views=4 words=4 fonts=2 infos=3 fill=3; n=40 few=3 step=31 fixviews=1 w=2 h=1 words=9 fonts=9; n=18 few=3 step=37 views=9 fixviews=1 w=1 h=1 words=3; n=5 w=40 h=30 few=4 step=1203"},
"C30": {"h_pipeline": "w=60 h=12 part=3 kind=0 exact=1; w=120 h=9 part=2 kind=0 exact=1; w=30 h=20 part=3 kind=5 exact=1 seed=3; w=20 h=7 part=2 pictures=2 exact=1 kind=0; w=16 h=6 part=2 exact=1 normalize=1; w=40 h=5 part=2 kind=0; w=5 h=1 wordlen=70; w=20 h=2 kind=0 part=2 exact=1 wordlen=20 longer=30; w=9 h=1 wordlen=300 part=2 kind=5; w=3 h=1 wordlen=15 longer=1; w=300 h=9 part=2 kind=0 exact=1; w=17 h=1 part=3 kind=5 wordlen=3 pictures=2 exact=1", "h_store": "n=12 w=5 h=4 part=2 views=3 few=4 step=9; n=6 w=24 h=16 part=2 views=2 few=3 step=7; n=30 w=3 h=3 few=4 step=60 views=2; n=2 w=64 h=40 part=2 few=4 step=2"},
"C31": {"h_context": "n=12 w=6 h=6 few=6 step=29; n=6 w=40 h=30 few=5 step=400 turn=1; n=30 w=4 h=4 few=6 step=31 seeds=2; n=3 w=300 h=3 few=3 step=101 fill=2; n=4 w=2 h=300 few=4 step=121 turn=1"},
"C32": {"h_text": "w=40 h=1 part=4 kind=5; w=60 h=1 part=4 kind=0; w=80 h=2 part=3 kind=0 n=6; w=40 h=1 part=3 kind=5 extra=3 same=0; w=60 h=3 part=3 kind=0 n=6 twin=1; w=300 h=1 part=2 kind=0; w=50 h=9 part=3 kind=0; w=200 h=3 part=3 kind=0 n=6 seed=9; w=40 h=3 part=3 kind=0 n=6 extra=2 seed=5 same=0; w=40 h=2 part=2 kind=0 n=2 extra=1 seed=4 same=0"},
"C33": {"h_permute": "n=40; n=12 swap=1 mul=5; n=40 mul=1; n=100 mul=99 few=4 step=29; n=64 mul=33", "h_utf8": "n=20 few=4 step=9 seeds=3; n=40 few=5 step=13 phase=1; n=12 few=4 step=5 fill=2; n=12 few=4 step=5 fill=1 phase=1", "h_range": "n=100 few=4 step=33", "h_order": "a=24 b=25 few=3; a=1 b=7; a=5 b=23; a=9 b=24; a=22 b=24; a=13 b=20"},
"C34": {"h_tool": "files=1 lines=20 len=3 few=4 step=17; files=1 lines=100 len=4 few=4 step=71; files=1 lines=2 lo=100 len=100 linelo=2 wide=3 letters=2 few=4 step=61 ask=2; files=3 lines=30 linelo=20 len=2 few=3 step=41 missing=1; files=2 linelo=1 lo=300 len=300 letters=9 few=3 step=131; files=3 lines=6 linelo=3 lo=20 len=30 letters=5 few=4 step=31 seeds=2; files=2 lines=12 len=3 letters=3 few=5 step=9 lo=1 seeds=3"},
}
def _scale(text):
    for item in text.split(";"):
        d = {k: int(v) for k, v in (kv.split("=") for kv in item.split())}; n = d.pop("seeds", 1)
        for s in range(n): yield dict(d, **({"seed": d.get("seed", 0) + s, "phase": d.get("phase", 0) + s * 3 % 7} if s else {}))
PROPS["C33"]["jobs"].append(dict(harness="c33.cpp", entry="h_permute", quick=[]))
for _p, _e in SCALE.items():
    for _n, _t in _e.items():
        _j = [j for j in PROPS[_p]["jobs"] if j["entry"] == _n]; assert len(_j) == 1, (_p, _n); _j[0]["quick"] = _j[0]["quick"] + list(_scale(_t))
# More than 255 of everything: entries, readings per entry, letters per word, fonts.
BEYOND = {
"C16": {"h_roundtrip": "n=300 few=3 step=150; n=1 views=300 few=3 step=101; n=2 views=270 vary=2 few=3 step=90"},
"C17": {"h_index": "n=300 few=2 step=151 len=9 fill=3 ask=9; n=300 few=2 step=150 letters=35 len=3 ask=3"},
"C18": {"h_classes": "n=300 views=2 few=1 step=299 words=4; n=300 few=1 views=1 phase=50 fill=1; n=20 views=300 few=2 step=150 fill=3"},
"C19": {"h_store": "n=300 few=1 phase=300 fill=1"},
"C21": {"h_lines": "n=40 few=3 step=37 phase=2 views=3 words=3 tops=2 heights=2; n=300 few=2 step=170 phase=2 views=2 words=3 tops=2 heights=2"},
"C22": {"h_font": "n=300 few=2 step=151 fonts=6 views=2; n=20 views=300 few=2 step=151; n=30 fonts=300 few=3 step=151 views=10"},
"C23": {"h_text": "n=300 few=2 step=151 views=2 pool=0 dict=3; n=300 few=2 step=151 views=1 pool=3 dict=3"},
"C24": {"h_member": "n=2 len=300 lo=300 few=3 step=97; n=2 len=300 lo=1 few=4 step=301; n=400 len=6 lo=1 few=2 step=701 ask=2 wide=4"},
"C25": {"h_word": "n=2 len=300 fill=3 few=2 step=201 pos=300 cand=1 fixed=1 letters=2; n=300 len=3 few=2 step=201 letters=2 pos=3 cand=2; n=3 len=5 few=3 step=7 letters=2 pos=4 cand=20"},
"C26": {"h_roundtrip": "n=2 lo=300 len=300 few=3 step=299; n=300 len=3 few=2 step=299 lo=1"},
"C27": {"h_lookup": "n=300 glyphs=5 len=3 few=2 step=201; n=5 glyphs=300 len=2 few=2 step=201"},
"C29": {"h_normalize": "n=300 few=2 step=301 views=1 w=2 h=2; n=300 few=2 step=301 fixviews=1 w=2 h=1 words=9 fonts=9; n=2 views=300 few=2 step=101"},
"C30": {"h_store": "n=300 w=2 h=2 few=2 step=600 views=1"},
"C31": {"h_context": "n=300 w=2 h=2 few=4 step=301"},
"C36": {"h_trie": "n=2 lo=300 len=300 few=3 step=97; n=2 len=300 few=4 step=301"},
}
def _extend(table):
    for p, es in table.items():
        for n, t in es.items():
            j = [j for j in PROPS[p]["jobs"] if j["entry"] == n]; assert len(j) == 1, (p, n); j[0]["quick"] = j[0]["quick"] + list(_scale(t))
def _debug(picks):
    hs, jobs = {}, []
    for prop, entries in picks.items():
        for h, spec in PROPS[prop]["harness"].items(): hs[h] = dict(spec, flags=["-UNDEBUG"])
        for e in entries:
            j = next(x for x in PROPS[prop]["jobs"] if x["entry"] == e); jobs.append(dict(j, quick=list(j["quick"]), thorough=list(j.get("thorough", []))[:2]))
    return hs, jobs
_h, _j = _debug({"C03": ["h_section"], "C05": ["h_scan"], "C06": ["h_keep"], "C10": ["h_alt"], "C11": ["h_zone"], "C13": ["h_scalar", "h_shares"], "C20": ["h_select"], "C21": ["h_lines"], "C23": ["h_text"], "C30": ["h_pipeline"], "C31": ["h_context"], "C35": ["h_show"], "C40": ["h_alone"]})
PROPS["C38"] = dict(harness=_h, jobs=_j, labels=["one glyph per character, in order", "every character of every picture is drawn once, in order"], bounds="the quick inputs of C03 (cutting), C05, C06, C10, C11, C13, C20, C21, C23, C30 (pipeline), C31, C35 and C40 (single characters), with the sources encoded without NDEBUG")
_extend(BEYOND)
PROPS["C18"]["jobs"].append(dict(harness="c18.cpp", entry="h_words", opts=["--max-steps", "2000000000"], quick=[dict(n=300, few=1, phase=299, fill=1), dict(n=300, few=1, step=150, words=3)]))
# images so large that 32-bit products and sums wrap
for _p, _t in {"C07": [("h_gravity", [(600, 600, 1), (700, 700, 2), (300, 300, 1), (600, 4, 5), (4, 2000, 1), (1500, 1500, 1)]), ("h_direction", [(300, 300, 1), (600, 4, 5), (4, 600, 2), (6600, 6600, 2)])],
               "C08": [("h_gravity", [(900, 900, 2), (900, 901, 1), (300, 300, 1), (600, 4, 5), (2600, 6, 1), (4, 1600, 1)]), ("h_direction", [(300, 300, 1), (600, 4, 5), (1200, 3, 1), (4, 600, 2)])],
               "C09": [("h_density", [(300, 300, 1), (600, 4, 5), (6600, 6600, 1)]), ("h_band", [(300, 300, 1), (600, 4, 5), (4, 600, 2), (6600, 6600, 1)]), ("h_bar", [(600, 4, 5), (4, 600, 2)])],
               "C10": [("h_alt", [(300, 300, 1), (600, 4, 5), (4, 600, 0)])]}.items():
    for _e, _s in _t: PROPS[_p]["jobs"].append(dict(harness=_p.lower() + ".cpp", entry=_e, opts=["--max-steps", "20000000000"], quick=[dict(w=a, h=b, part=1 if a * b > 200000 else 4, kind=k, **(dict(merge=3) if _p == "C10" or _e == "h_bar" else {})) for a, b, k in _s]))
for _p, _q in PROPS.items(): # the bounds name the larger inputs too
    _l = [j for e in _q["jobs"] for j in e["quick"] if "few" in j or "part" in j]
    if _l: _q["bounds"] += "; %d further jobs on larger inputs (sizes in the job list) in which up to %d inputs take every value and the others are fixed" % (len(_l), max(int(j.get("few", 0) or j.get("part", 0)) for j in _l))
