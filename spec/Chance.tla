------------------------------- MODULE Chance -------------------------------
(* Reproducible choices: three congruential generators (Wichmann and Hill)  *)
(* whose sum selects one of the options at hand.                            *)
EXTENDS Naturals, Sequences

SeedOf(run, salt) == <<1 + ((run * 7919 + salt * 104729) % 30000),
                       1 + ((run * 6271 + salt * 15485) % 30000),
                       1 + ((run * 4357 + salt * 32452) % 30000)>>
NextSeed(sd) == <<(171 * sd[1]) % 30269, (172 * sd[2]) % 30307, (170 * sd[3]) % 30323>>
Roll(sd, sides) == 1 + ((sd[1] + sd[2] + sd[3]) % sides)
OneOf(sd, sq) == sq[Roll(sd, Len(sq))]
=============================================================================
