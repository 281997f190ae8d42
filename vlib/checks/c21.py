def body(ctx):
    ctx.rules.append("Random lists of 1 to 60 rectangles of many shapes, with and without limits, packed by the AddressSanitizer + UBSan build; "
                     "positions are judged by pairwise comparison. Distinct by sizes and limits.")
    ctx.run_cases("packing", ctx.n(24000, 1000000), mods=("mm0", "rp"), variant="asan", sanitizer="asan", timeout=60, hang_is_violation=True)
    ctx.floor = 1000
