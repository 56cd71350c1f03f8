"""version constants hashed with the seed message (documented addresses, per language, game and console)"""
LANGS = ("ENGLISH", "JAPANESE", "GERMAN", "SPANISH", "FRENCH", "ITALIAN", "KOREAN")
NAZO = {
    "ENGLISH": ((0x022160B0, 0x022160D0, 0x02760190, 0x027601B0), ((0x02200010, 0x0209AEE8, 0x02039DE9), (0x02200050, 0x0209AF28, 0x02039E15), (0x027A5F70, 0x0209AEE8, 0x02039DE9), (0x027A5E90, 0x0209AF28, 0x02039E15))),
    "JAPANESE": ((0x02215F10, 0x02215F30, 0x02761150, 0x02761150), ((0x021FF9B0, 0x0209A8DC, 0x02039AC9), (0x021FF9D0, 0x0209A8FC, 0x02039AF5), (0x027AA730, 0x0209A8DC, 0x02039AC9), (0x027AA5F0, 0x0209A8FC, 0x02039AF5))),
    "GERMAN": ((0x02215FF0, 0x02216010, 0x027602F0, 0x027602F0), ((0x021FFF50, 0x0209AE28, 0x02039D69), (0x021FFF70, 0x0209AE48, 0x02039D95), (0x027A6110, 0x0209AE28, 0x02039D69), (0x027A6010, 0x0209AE48, 0x02039D95))),
    "SPANISH": ((0x02216070, 0x02216070, 0x027601F0, 0x027601F0), ((0x021FFFD0, 0x0209AEA8, 0x02039DB9), (0x021FFFF0, 0x0209AEC8, 0x02039DE5), (0x027A6070, 0x0209AEA8, 0x02039DB9), (0x027A5FB0, 0x0209AEC8, 0x02039DE5))),
    "FRENCH": ((0x02216030, 0x02216050, 0x02760230, 0x02760250), ((0x02200030, 0x0209AF08, 0x02039DF9), (0x02200050, 0x0209AF28, 0x02039E25), (0x027A5F90, 0x0209AF08, 0x02039DF9), (0x027A5EF0, 0x0209AF28, 0x02039E25))),
    "ITALIAN": ((0x02215FB0, 0x02215FD0, 0x027601D0, 0x027601D0), ((0x021FFF10, 0x0209ADE8, 0x02039D69), (0x021FFF50, 0x0209AE28, 0x02039D95), (0x027A5F70, 0x0209ADE8, 0x02039D69), (0x027A5ED0, 0x0209AE28, 0x02039D95))),
    "KOREAN": ((0x022167B0, 0x022167B0, 0x02761150, 0x02761150), ((0x02200750, 0x0209B60C, 0x0203A4D5), (0x02200770, 0x0209B62C, 0x0203A501), (0x02200770, 0x0209B60C, 0x0203A4D5), (0x027A57B0, 0x0209B62C, 0x0203A501))),
}


def bs(n):
    return int.from_bytes((n & 0xFFFFFFFF).to_bytes(4, "little"), "big")


def nazo_words(lang, game, dsi):
    """game 0..3: Black, White, Black 2, White 2"""
    bw, b2 = NAZO[lang]
    if game < 2:
        n = bw[game + 2 * dsi]
        return [bs(n), bs(n + 0xFC), bs(n + 0xFC), bs(n + 0xFC + 0x4C), bs(n + 0xFC + 0x4C)]
    n, n0, n1 = b2[game - 2 + 2 * dsi]
    return [bs(n0), bs(n1), bs(n), bs(n + 0x54), bs(n + 0x54)]
