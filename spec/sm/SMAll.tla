-------------------------------- MODULE SMAll --------------------------------
(****************************************************************************)
(* The process modules under one roof: what each class is made of, its      *)
(* external masses, context, amplitudes and squares, by class and method.   *)
(*                                                                          *)
(* Sig(cls).ctor and .setm are the parameters of the constructor and of     *)
(* set_masses, in order; .amps the amplitude methods with the twice-spins   *)
(* each argument ranges over; .squares the methods giving a squared         *)
(* amplitude; .setv whether the class has set_v; .at whether it has an amp2 *)
(* taking momenta.  A run that needs few classes keeps only their lines.    *)
(****************************************************************************)
EXTENDS Amplitude

M_AAWW == INSTANCE P_AAWW
M_AAdd == INSTANCE P_AAdd
M_AAee == INSTANCE P_AAee
M_AAuu == INSTANCE P_AAuu
M_AWAW == INSTANCE P_AWAW
M_AWWh == INSTANCE P_AWWh
M_AWZW == INSTANCE P_AWZW
M_AWud == INSTANCE P_AWud
M_AZWW == INSTANCE P_AZWW
M_AZdd == INSTANCE P_AZdd
M_AZee == INSTANCE P_AZee
M_AZuu == INSTANCE P_AZuu
M_AdZd == INSTANCE P_AdZd
M_AeZe == INSTANCE P_AeZe
M_AhWW == INSTANCE P_AhWW
M_AnWe == INSTANCE P_AnWe
M_AuZu == INSTANCE P_AuZu
M_WWWW == INSTANCE P_WWWW
M_WWWW2 == INSTANCE P_WWWW2
M_WdWd == INSTANCE P_WdWd
M_WdZu == INSTANCE P_WdZu
M_ZWWh == INSTANCE P_ZWWh
M_ZWZW == INSTANCE P_ZWZW
M_ZZWW == INSTANCE P_ZZWW
M_ZZZZ == INSTANCE P_ZZZZ
M_ZhWW == INSTANCE P_ZhWW
M_ZnWe == INSTANCE P_ZnWe
M_dAAd == INSTANCE P_dAAd
M_dAdh == INSTANCE P_dAdh
M_dAgd == INSTANCE P_dAgd
M_dWgu == INSTANCE P_dWgu
M_dZZd == INSTANCE P_dZZd
M_dZdh == INSTANCE P_dZdh
M_ddAA == INSTANCE P_ddAA
M_ddAh == INSTANCE P_ddAh
M_ddWW == INSTANCE P_ddWW
M_ddZZ == INSTANCE P_ddZZ
M_ddZh == INSTANCE P_ddZh
M_dddd == INSTANCE P_dddd
M_dddd2 == INSTANCE P_dddd2
M_ddee == INSTANCE P_ddee
M_ddhh == INSTANCE P_ddhh
M_ddnn == INSTANCE P_ddnn
M_ddss == INSTANCE P_ddss
M_deed == INSTANCE P_deed
M_dgdh == INSTANCE P_dgdh
M_dggd == INSTANCE P_dggd
M_dhdh == INSTANCE P_dhdh
M_dnnd == INSTANCE P_dnnd
M_dsds == INSTANCE P_dsds
M_eAAe == INSTANCE P_eAAe
M_eAeh == INSTANCE P_eAeh
M_eWWe == INSTANCE P_eWWe
M_eZZe == INSTANCE P_eZZe
M_eZeh == INSTANCE P_eZeh
M_eeAA == INSTANCE P_eeAA
M_eeAZ == INSTANCE P_eeAZ
M_eeAh == INSTANCE P_eeAh
M_eeWW == INSTANCE P_eeWW
M_eeZZ == INSTANCE P_eeZZ
M_eeZh == INSTANCE P_eeZh
M_eeee == INSTANCE P_eeee
M_eeee2 == INSTANCE P_eeee2
M_eeeeQED == INSTANCE P_eeeeQED
M_eehh == INSTANCE P_eehh
M_eemm == INSTANCE P_eemm
M_eemmQED == INSTANCE P_eemmQED
M_eenene == INSTANCE P_eenene
M_eenmnm == INSTANCE P_eenmnm
M_eheh == INSTANCE P_eheh
M_emem == INSTANCE P_emem
M_enAW == INSTANCE P_enAW
M_enWh == INSTANCE P_enWh
M_enZW == INSTANCE P_enZW
M_enenee == INSTANCE P_enenee
M_enmenm == INSTANCE P_enmenm
M_gAdd == INSTANCE P_gAdd
M_gAuu == INSTANCE P_gAuu
M_gWud == INSTANCE P_gWud
M_gZdd == INSTANCE P_gZdd
M_gZuu == INSTANCE P_gZuu
M_gdZd == INSTANCE P_gdZd
M_ggdd == INSTANCE P_ggdd
M_gggg == INSTANCE P_gggg
M_gguu == INSTANCE P_gguu
M_guAu == INSTANCE P_guAu
M_guZu == INSTANCE P_guZu
M_gugu == INSTANCE P_gugu
M_hWWh == INSTANCE P_hWWh
M_hZZh == INSTANCE P_hZZh
M_hgdd == INSTANCE P_hgdd
M_hguu == INSTANCE P_hguu
M_hhWW == INSTANCE P_hhWW
M_hhZZ == INSTANCE P_hhZZ
M_hhhh == INSTANCE P_hhhh
M_hnWe == INSTANCE P_hnWe
M_menn == INSTANCE P_menn
M_mnen == INSTANCE P_mnen
M_nWWn == INSTANCE P_nWWn
M_nZZn == INSTANCE P_nZZn
M_nZnh == INSTANCE P_nZnh
M_nenenene == INSTANCE P_nenenene
M_nenenene2 == INSTANCE P_nenenene2
M_nenenmnm == INSTANCE P_nenenmnm
M_nenmnenm == INSTANCE P_nenmnenm
M_nnWW == INSTANCE P_nnWW
M_nnZZ == INSTANCE P_nnZZ
M_nnZh == INSTANCE P_nnZh
M_uAAu == INSTANCE P_uAAu
M_uAuh == INSTANCE P_uAuh
M_uWWu == INSTANCE P_uWWu
M_uZZu == INSTANCE P_uZZu
M_uZuh == INSTANCE P_uZuh
M_ubdt == INSTANCE P_ubdt
M_ucuc == INSTANCE P_ucuc
M_udAW == INSTANCE P_udAW
M_udWh == INSTANCE P_udWh
M_udZW == INSTANCE P_udZW
M_udnl == INSTANCE P_udnl
M_udtb == INSTANCE P_udtb
M_udud == INSTANCE P_udud
M_ueeu == INSTANCE P_ueeu
M_uguh == INSTANCE P_uguh
M_uhWd == INSTANCE P_uhWd
M_uhuh == INSTANCE P_uhuh
M_ulnd == INSTANCE P_ulnd
M_unnu == INSTANCE P_unnu
M_usus == INSTANCE P_usus
M_uuAA == INSTANCE P_uuAA
M_uuAh == INSTANCE P_uuAh
M_uuWW == INSTANCE P_uuWW
M_uuZZ == INSTANCE P_uuZZ
M_uuZh == INSTANCE P_uuZh
M_uucc == INSTANCE P_uucc
M_uudd == INSTANCE P_uudd
M_uuee == INSTANCE P_uuee
M_uuhh == INSTANCE P_uuhh
M_uunn == INSTANCE P_uunn
M_uuss == INSTANCE P_uuss
M_uuuu == INSTANCE P_uuuu
M_uuuu2 == INSTANCE P_uuuu2

Sig(cls) ==
  CASE cls = "" -> <<>>
    [] cls = "AAWW" -> M_AAWW!Sig
    [] cls = "AAdd" -> M_AAdd!Sig
    [] cls = "AAee" -> M_AAee!Sig
    [] cls = "AAuu" -> M_AAuu!Sig
    [] cls = "AWAW" -> M_AWAW!Sig
    [] cls = "AWWh" -> M_AWWh!Sig
    [] cls = "AWZW" -> M_AWZW!Sig
    [] cls = "AWud" -> M_AWud!Sig
    [] cls = "AZWW" -> M_AZWW!Sig
    [] cls = "AZdd" -> M_AZdd!Sig
    [] cls = "AZee" -> M_AZee!Sig
    [] cls = "AZuu" -> M_AZuu!Sig
    [] cls = "AdZd" -> M_AdZd!Sig
    [] cls = "AeZe" -> M_AeZe!Sig
    [] cls = "AhWW" -> M_AhWW!Sig
    [] cls = "AnWe" -> M_AnWe!Sig
    [] cls = "AuZu" -> M_AuZu!Sig
    [] cls = "WWWW" -> M_WWWW!Sig
    [] cls = "WWWW2" -> M_WWWW2!Sig
    [] cls = "WdWd" -> M_WdWd!Sig
    [] cls = "WdZu" -> M_WdZu!Sig
    [] cls = "ZWWh" -> M_ZWWh!Sig
    [] cls = "ZWZW" -> M_ZWZW!Sig
    [] cls = "ZZWW" -> M_ZZWW!Sig
    [] cls = "ZZZZ" -> M_ZZZZ!Sig
    [] cls = "ZhWW" -> M_ZhWW!Sig
    [] cls = "ZnWe" -> M_ZnWe!Sig
    [] cls = "dAAd" -> M_dAAd!Sig
    [] cls = "dAdh" -> M_dAdh!Sig
    [] cls = "dAgd" -> M_dAgd!Sig
    [] cls = "dWgu" -> M_dWgu!Sig
    [] cls = "dZZd" -> M_dZZd!Sig
    [] cls = "dZdh" -> M_dZdh!Sig
    [] cls = "ddAA" -> M_ddAA!Sig
    [] cls = "ddAh" -> M_ddAh!Sig
    [] cls = "ddWW" -> M_ddWW!Sig
    [] cls = "ddZZ" -> M_ddZZ!Sig
    [] cls = "ddZh" -> M_ddZh!Sig
    [] cls = "dddd" -> M_dddd!Sig
    [] cls = "dddd2" -> M_dddd2!Sig
    [] cls = "ddee" -> M_ddee!Sig
    [] cls = "ddhh" -> M_ddhh!Sig
    [] cls = "ddnn" -> M_ddnn!Sig
    [] cls = "ddss" -> M_ddss!Sig
    [] cls = "deed" -> M_deed!Sig
    [] cls = "dgdh" -> M_dgdh!Sig
    [] cls = "dggd" -> M_dggd!Sig
    [] cls = "dhdh" -> M_dhdh!Sig
    [] cls = "dnnd" -> M_dnnd!Sig
    [] cls = "dsds" -> M_dsds!Sig
    [] cls = "eAAe" -> M_eAAe!Sig
    [] cls = "eAeh" -> M_eAeh!Sig
    [] cls = "eWWe" -> M_eWWe!Sig
    [] cls = "eZZe" -> M_eZZe!Sig
    [] cls = "eZeh" -> M_eZeh!Sig
    [] cls = "eeAA" -> M_eeAA!Sig
    [] cls = "eeAZ" -> M_eeAZ!Sig
    [] cls = "eeAh" -> M_eeAh!Sig
    [] cls = "eeWW" -> M_eeWW!Sig
    [] cls = "eeZZ" -> M_eeZZ!Sig
    [] cls = "eeZh" -> M_eeZh!Sig
    [] cls = "eeee" -> M_eeee!Sig
    [] cls = "eeee2" -> M_eeee2!Sig
    [] cls = "eeeeQED" -> M_eeeeQED!Sig
    [] cls = "eehh" -> M_eehh!Sig
    [] cls = "eemm" -> M_eemm!Sig
    [] cls = "eemmQED" -> M_eemmQED!Sig
    [] cls = "eenene" -> M_eenene!Sig
    [] cls = "eenmnm" -> M_eenmnm!Sig
    [] cls = "eheh" -> M_eheh!Sig
    [] cls = "emem" -> M_emem!Sig
    [] cls = "enAW" -> M_enAW!Sig
    [] cls = "enWh" -> M_enWh!Sig
    [] cls = "enZW" -> M_enZW!Sig
    [] cls = "enenee" -> M_enenee!Sig
    [] cls = "enmenm" -> M_enmenm!Sig
    [] cls = "gAdd" -> M_gAdd!Sig
    [] cls = "gAuu" -> M_gAuu!Sig
    [] cls = "gWud" -> M_gWud!Sig
    [] cls = "gZdd" -> M_gZdd!Sig
    [] cls = "gZuu" -> M_gZuu!Sig
    [] cls = "gdZd" -> M_gdZd!Sig
    [] cls = "ggdd" -> M_ggdd!Sig
    [] cls = "gggg" -> M_gggg!Sig
    [] cls = "gguu" -> M_gguu!Sig
    [] cls = "guAu" -> M_guAu!Sig
    [] cls = "guZu" -> M_guZu!Sig
    [] cls = "gugu" -> M_gugu!Sig
    [] cls = "hWWh" -> M_hWWh!Sig
    [] cls = "hZZh" -> M_hZZh!Sig
    [] cls = "hgdd" -> M_hgdd!Sig
    [] cls = "hguu" -> M_hguu!Sig
    [] cls = "hhWW" -> M_hhWW!Sig
    [] cls = "hhZZ" -> M_hhZZ!Sig
    [] cls = "hhhh" -> M_hhhh!Sig
    [] cls = "hnWe" -> M_hnWe!Sig
    [] cls = "menn" -> M_menn!Sig
    [] cls = "mnen" -> M_mnen!Sig
    [] cls = "nWWn" -> M_nWWn!Sig
    [] cls = "nZZn" -> M_nZZn!Sig
    [] cls = "nZnh" -> M_nZnh!Sig
    [] cls = "nenenene" -> M_nenenene!Sig
    [] cls = "nenenene2" -> M_nenenene2!Sig
    [] cls = "nenenmnm" -> M_nenenmnm!Sig
    [] cls = "nenmnenm" -> M_nenmnenm!Sig
    [] cls = "nnWW" -> M_nnWW!Sig
    [] cls = "nnZZ" -> M_nnZZ!Sig
    [] cls = "nnZh" -> M_nnZh!Sig
    [] cls = "uAAu" -> M_uAAu!Sig
    [] cls = "uAuh" -> M_uAuh!Sig
    [] cls = "uWWu" -> M_uWWu!Sig
    [] cls = "uZZu" -> M_uZZu!Sig
    [] cls = "uZuh" -> M_uZuh!Sig
    [] cls = "ubdt" -> M_ubdt!Sig
    [] cls = "ucuc" -> M_ucuc!Sig
    [] cls = "udAW" -> M_udAW!Sig
    [] cls = "udWh" -> M_udWh!Sig
    [] cls = "udZW" -> M_udZW!Sig
    [] cls = "udnl" -> M_udnl!Sig
    [] cls = "udtb" -> M_udtb!Sig
    [] cls = "udud" -> M_udud!Sig
    [] cls = "ueeu" -> M_ueeu!Sig
    [] cls = "uguh" -> M_uguh!Sig
    [] cls = "uhWd" -> M_uhWd!Sig
    [] cls = "uhuh" -> M_uhuh!Sig
    [] cls = "ulnd" -> M_ulnd!Sig
    [] cls = "unnu" -> M_unnu!Sig
    [] cls = "usus" -> M_usus!Sig
    [] cls = "uuAA" -> M_uuAA!Sig
    [] cls = "uuAh" -> M_uuAh!Sig
    [] cls = "uuWW" -> M_uuWW!Sig
    [] cls = "uuZZ" -> M_uuZZ!Sig
    [] cls = "uuZh" -> M_uuZh!Sig
    [] cls = "uucc" -> M_uucc!Sig
    [] cls = "uudd" -> M_uudd!Sig
    [] cls = "uuee" -> M_uuee!Sig
    [] cls = "uuhh" -> M_uuhh!Sig
    [] cls = "uunn" -> M_uunn!Sig
    [] cls = "uuss" -> M_uuss!Sig
    [] cls = "uuuu" -> M_uuuu!Sig
    [] cls = "uuuu2" -> M_uuuu2!Sig

LegsOf(cls, q) ==
  CASE cls = "" -> <<>>
    [] cls = "AAWW" -> M_AAWW!Legs(q)
    [] cls = "AAdd" -> M_AAdd!Legs(q)
    [] cls = "AAee" -> M_AAee!Legs(q)
    [] cls = "AAuu" -> M_AAuu!Legs(q)
    [] cls = "AWAW" -> M_AWAW!Legs(q)
    [] cls = "AWWh" -> M_AWWh!Legs(q)
    [] cls = "AWZW" -> M_AWZW!Legs(q)
    [] cls = "AWud" -> M_AWud!Legs(q)
    [] cls = "AZWW" -> M_AZWW!Legs(q)
    [] cls = "AZdd" -> M_AZdd!Legs(q)
    [] cls = "AZee" -> M_AZee!Legs(q)
    [] cls = "AZuu" -> M_AZuu!Legs(q)
    [] cls = "AdZd" -> M_AdZd!Legs(q)
    [] cls = "AeZe" -> M_AeZe!Legs(q)
    [] cls = "AhWW" -> M_AhWW!Legs(q)
    [] cls = "AnWe" -> M_AnWe!Legs(q)
    [] cls = "AuZu" -> M_AuZu!Legs(q)
    [] cls = "WWWW" -> M_WWWW!Legs(q)
    [] cls = "WWWW2" -> M_WWWW2!Legs(q)
    [] cls = "WdWd" -> M_WdWd!Legs(q)
    [] cls = "WdZu" -> M_WdZu!Legs(q)
    [] cls = "ZWWh" -> M_ZWWh!Legs(q)
    [] cls = "ZWZW" -> M_ZWZW!Legs(q)
    [] cls = "ZZWW" -> M_ZZWW!Legs(q)
    [] cls = "ZZZZ" -> M_ZZZZ!Legs(q)
    [] cls = "ZhWW" -> M_ZhWW!Legs(q)
    [] cls = "ZnWe" -> M_ZnWe!Legs(q)
    [] cls = "dAAd" -> M_dAAd!Legs(q)
    [] cls = "dAdh" -> M_dAdh!Legs(q)
    [] cls = "dAgd" -> M_dAgd!Legs(q)
    [] cls = "dWgu" -> M_dWgu!Legs(q)
    [] cls = "dZZd" -> M_dZZd!Legs(q)
    [] cls = "dZdh" -> M_dZdh!Legs(q)
    [] cls = "ddAA" -> M_ddAA!Legs(q)
    [] cls = "ddAh" -> M_ddAh!Legs(q)
    [] cls = "ddWW" -> M_ddWW!Legs(q)
    [] cls = "ddZZ" -> M_ddZZ!Legs(q)
    [] cls = "ddZh" -> M_ddZh!Legs(q)
    [] cls = "dddd" -> M_dddd!Legs(q)
    [] cls = "dddd2" -> M_dddd2!Legs(q)
    [] cls = "ddee" -> M_ddee!Legs(q)
    [] cls = "ddhh" -> M_ddhh!Legs(q)
    [] cls = "ddnn" -> M_ddnn!Legs(q)
    [] cls = "ddss" -> M_ddss!Legs(q)
    [] cls = "deed" -> M_deed!Legs(q)
    [] cls = "dgdh" -> M_dgdh!Legs(q)
    [] cls = "dggd" -> M_dggd!Legs(q)
    [] cls = "dhdh" -> M_dhdh!Legs(q)
    [] cls = "dnnd" -> M_dnnd!Legs(q)
    [] cls = "dsds" -> M_dsds!Legs(q)
    [] cls = "eAAe" -> M_eAAe!Legs(q)
    [] cls = "eAeh" -> M_eAeh!Legs(q)
    [] cls = "eWWe" -> M_eWWe!Legs(q)
    [] cls = "eZZe" -> M_eZZe!Legs(q)
    [] cls = "eZeh" -> M_eZeh!Legs(q)
    [] cls = "eeAA" -> M_eeAA!Legs(q)
    [] cls = "eeAZ" -> M_eeAZ!Legs(q)
    [] cls = "eeAh" -> M_eeAh!Legs(q)
    [] cls = "eeWW" -> M_eeWW!Legs(q)
    [] cls = "eeZZ" -> M_eeZZ!Legs(q)
    [] cls = "eeZh" -> M_eeZh!Legs(q)
    [] cls = "eeee" -> M_eeee!Legs(q)
    [] cls = "eeee2" -> M_eeee2!Legs(q)
    [] cls = "eeeeQED" -> M_eeeeQED!Legs(q)
    [] cls = "eehh" -> M_eehh!Legs(q)
    [] cls = "eemm" -> M_eemm!Legs(q)
    [] cls = "eemmQED" -> M_eemmQED!Legs(q)
    [] cls = "eenene" -> M_eenene!Legs(q)
    [] cls = "eenmnm" -> M_eenmnm!Legs(q)
    [] cls = "eheh" -> M_eheh!Legs(q)
    [] cls = "emem" -> M_emem!Legs(q)
    [] cls = "enAW" -> M_enAW!Legs(q)
    [] cls = "enWh" -> M_enWh!Legs(q)
    [] cls = "enZW" -> M_enZW!Legs(q)
    [] cls = "enenee" -> M_enenee!Legs(q)
    [] cls = "enmenm" -> M_enmenm!Legs(q)
    [] cls = "gAdd" -> M_gAdd!Legs(q)
    [] cls = "gAuu" -> M_gAuu!Legs(q)
    [] cls = "gWud" -> M_gWud!Legs(q)
    [] cls = "gZdd" -> M_gZdd!Legs(q)
    [] cls = "gZuu" -> M_gZuu!Legs(q)
    [] cls = "gdZd" -> M_gdZd!Legs(q)
    [] cls = "ggdd" -> M_ggdd!Legs(q)
    [] cls = "gggg" -> M_gggg!Legs(q)
    [] cls = "gguu" -> M_gguu!Legs(q)
    [] cls = "guAu" -> M_guAu!Legs(q)
    [] cls = "guZu" -> M_guZu!Legs(q)
    [] cls = "gugu" -> M_gugu!Legs(q)
    [] cls = "hWWh" -> M_hWWh!Legs(q)
    [] cls = "hZZh" -> M_hZZh!Legs(q)
    [] cls = "hgdd" -> M_hgdd!Legs(q)
    [] cls = "hguu" -> M_hguu!Legs(q)
    [] cls = "hhWW" -> M_hhWW!Legs(q)
    [] cls = "hhZZ" -> M_hhZZ!Legs(q)
    [] cls = "hhhh" -> M_hhhh!Legs(q)
    [] cls = "hnWe" -> M_hnWe!Legs(q)
    [] cls = "menn" -> M_menn!Legs(q)
    [] cls = "mnen" -> M_mnen!Legs(q)
    [] cls = "nWWn" -> M_nWWn!Legs(q)
    [] cls = "nZZn" -> M_nZZn!Legs(q)
    [] cls = "nZnh" -> M_nZnh!Legs(q)
    [] cls = "nenenene" -> M_nenenene!Legs(q)
    [] cls = "nenenene2" -> M_nenenene2!Legs(q)
    [] cls = "nenenmnm" -> M_nenenmnm!Legs(q)
    [] cls = "nenmnenm" -> M_nenmnenm!Legs(q)
    [] cls = "nnWW" -> M_nnWW!Legs(q)
    [] cls = "nnZZ" -> M_nnZZ!Legs(q)
    [] cls = "nnZh" -> M_nnZh!Legs(q)
    [] cls = "uAAu" -> M_uAAu!Legs(q)
    [] cls = "uAuh" -> M_uAuh!Legs(q)
    [] cls = "uWWu" -> M_uWWu!Legs(q)
    [] cls = "uZZu" -> M_uZZu!Legs(q)
    [] cls = "uZuh" -> M_uZuh!Legs(q)
    [] cls = "ubdt" -> M_ubdt!Legs(q)
    [] cls = "ucuc" -> M_ucuc!Legs(q)
    [] cls = "udAW" -> M_udAW!Legs(q)
    [] cls = "udWh" -> M_udWh!Legs(q)
    [] cls = "udZW" -> M_udZW!Legs(q)
    [] cls = "udnl" -> M_udnl!Legs(q)
    [] cls = "udtb" -> M_udtb!Legs(q)
    [] cls = "udud" -> M_udud!Legs(q)
    [] cls = "ueeu" -> M_ueeu!Legs(q)
    [] cls = "uguh" -> M_uguh!Legs(q)
    [] cls = "uhWd" -> M_uhWd!Legs(q)
    [] cls = "uhuh" -> M_uhuh!Legs(q)
    [] cls = "ulnd" -> M_ulnd!Legs(q)
    [] cls = "unnu" -> M_unnu!Legs(q)
    [] cls = "usus" -> M_usus!Legs(q)
    [] cls = "uuAA" -> M_uuAA!Legs(q)
    [] cls = "uuAh" -> M_uuAh!Legs(q)
    [] cls = "uuWW" -> M_uuWW!Legs(q)
    [] cls = "uuZZ" -> M_uuZZ!Legs(q)
    [] cls = "uuZh" -> M_uuZh!Legs(q)
    [] cls = "uucc" -> M_uucc!Legs(q)
    [] cls = "uudd" -> M_uudd!Legs(q)
    [] cls = "uuee" -> M_uuee!Legs(q)
    [] cls = "uuhh" -> M_uuhh!Legs(q)
    [] cls = "uunn" -> M_uunn!Legs(q)
    [] cls = "uuss" -> M_uuss!Legs(q)
    [] cls = "uuuu" -> M_uuuu!Legs(q)
    [] cls = "uuuu2" -> M_uuuu2!Legs(q)

ContextOf(cls, q, mom) ==
  CASE cls = "" -> <<>>
    [] cls = "AAWW" -> M_AAWW!Context(q, mom)
    [] cls = "AAdd" -> M_AAdd!Context(q, mom)
    [] cls = "AAee" -> M_AAee!Context(q, mom)
    [] cls = "AAuu" -> M_AAuu!Context(q, mom)
    [] cls = "AWAW" -> M_AWAW!Context(q, mom)
    [] cls = "AWWh" -> M_AWWh!Context(q, mom)
    [] cls = "AWZW" -> M_AWZW!Context(q, mom)
    [] cls = "AWud" -> M_AWud!Context(q, mom)
    [] cls = "AZWW" -> M_AZWW!Context(q, mom)
    [] cls = "AZdd" -> M_AZdd!Context(q, mom)
    [] cls = "AZee" -> M_AZee!Context(q, mom)
    [] cls = "AZuu" -> M_AZuu!Context(q, mom)
    [] cls = "AdZd" -> M_AdZd!Context(q, mom)
    [] cls = "AeZe" -> M_AeZe!Context(q, mom)
    [] cls = "AhWW" -> M_AhWW!Context(q, mom)
    [] cls = "AnWe" -> M_AnWe!Context(q, mom)
    [] cls = "AuZu" -> M_AuZu!Context(q, mom)
    [] cls = "WWWW" -> M_WWWW!Context(q, mom)
    [] cls = "WWWW2" -> M_WWWW2!Context(q, mom)
    [] cls = "WdWd" -> M_WdWd!Context(q, mom)
    [] cls = "WdZu" -> M_WdZu!Context(q, mom)
    [] cls = "ZWWh" -> M_ZWWh!Context(q, mom)
    [] cls = "ZWZW" -> M_ZWZW!Context(q, mom)
    [] cls = "ZZWW" -> M_ZZWW!Context(q, mom)
    [] cls = "ZZZZ" -> M_ZZZZ!Context(q, mom)
    [] cls = "ZhWW" -> M_ZhWW!Context(q, mom)
    [] cls = "ZnWe" -> M_ZnWe!Context(q, mom)
    [] cls = "dAAd" -> M_dAAd!Context(q, mom)
    [] cls = "dAdh" -> M_dAdh!Context(q, mom)
    [] cls = "dAgd" -> M_dAgd!Context(q, mom)
    [] cls = "dWgu" -> M_dWgu!Context(q, mom)
    [] cls = "dZZd" -> M_dZZd!Context(q, mom)
    [] cls = "dZdh" -> M_dZdh!Context(q, mom)
    [] cls = "ddAA" -> M_ddAA!Context(q, mom)
    [] cls = "ddAh" -> M_ddAh!Context(q, mom)
    [] cls = "ddWW" -> M_ddWW!Context(q, mom)
    [] cls = "ddZZ" -> M_ddZZ!Context(q, mom)
    [] cls = "ddZh" -> M_ddZh!Context(q, mom)
    [] cls = "dddd" -> M_dddd!Context(q, mom)
    [] cls = "dddd2" -> M_dddd2!Context(q, mom)
    [] cls = "ddee" -> M_ddee!Context(q, mom)
    [] cls = "ddhh" -> M_ddhh!Context(q, mom)
    [] cls = "ddnn" -> M_ddnn!Context(q, mom)
    [] cls = "ddss" -> M_ddss!Context(q, mom)
    [] cls = "deed" -> M_deed!Context(q, mom)
    [] cls = "dgdh" -> M_dgdh!Context(q, mom)
    [] cls = "dggd" -> M_dggd!Context(q, mom)
    [] cls = "dhdh" -> M_dhdh!Context(q, mom)
    [] cls = "dnnd" -> M_dnnd!Context(q, mom)
    [] cls = "dsds" -> M_dsds!Context(q, mom)
    [] cls = "eAAe" -> M_eAAe!Context(q, mom)
    [] cls = "eAeh" -> M_eAeh!Context(q, mom)
    [] cls = "eWWe" -> M_eWWe!Context(q, mom)
    [] cls = "eZZe" -> M_eZZe!Context(q, mom)
    [] cls = "eZeh" -> M_eZeh!Context(q, mom)
    [] cls = "eeAA" -> M_eeAA!Context(q, mom)
    [] cls = "eeAZ" -> M_eeAZ!Context(q, mom)
    [] cls = "eeAh" -> M_eeAh!Context(q, mom)
    [] cls = "eeWW" -> M_eeWW!Context(q, mom)
    [] cls = "eeZZ" -> M_eeZZ!Context(q, mom)
    [] cls = "eeZh" -> M_eeZh!Context(q, mom)
    [] cls = "eeee" -> M_eeee!Context(q, mom)
    [] cls = "eeee2" -> M_eeee2!Context(q, mom)
    [] cls = "eeeeQED" -> M_eeeeQED!Context(q, mom)
    [] cls = "eehh" -> M_eehh!Context(q, mom)
    [] cls = "eemm" -> M_eemm!Context(q, mom)
    [] cls = "eemmQED" -> M_eemmQED!Context(q, mom)
    [] cls = "eenene" -> M_eenene!Context(q, mom)
    [] cls = "eenmnm" -> M_eenmnm!Context(q, mom)
    [] cls = "eheh" -> M_eheh!Context(q, mom)
    [] cls = "emem" -> M_emem!Context(q, mom)
    [] cls = "enAW" -> M_enAW!Context(q, mom)
    [] cls = "enWh" -> M_enWh!Context(q, mom)
    [] cls = "enZW" -> M_enZW!Context(q, mom)
    [] cls = "enenee" -> M_enenee!Context(q, mom)
    [] cls = "enmenm" -> M_enmenm!Context(q, mom)
    [] cls = "gAdd" -> M_gAdd!Context(q, mom)
    [] cls = "gAuu" -> M_gAuu!Context(q, mom)
    [] cls = "gWud" -> M_gWud!Context(q, mom)
    [] cls = "gZdd" -> M_gZdd!Context(q, mom)
    [] cls = "gZuu" -> M_gZuu!Context(q, mom)
    [] cls = "gdZd" -> M_gdZd!Context(q, mom)
    [] cls = "ggdd" -> M_ggdd!Context(q, mom)
    [] cls = "gggg" -> M_gggg!Context(q, mom)
    [] cls = "gguu" -> M_gguu!Context(q, mom)
    [] cls = "guAu" -> M_guAu!Context(q, mom)
    [] cls = "guZu" -> M_guZu!Context(q, mom)
    [] cls = "gugu" -> M_gugu!Context(q, mom)
    [] cls = "hWWh" -> M_hWWh!Context(q, mom)
    [] cls = "hZZh" -> M_hZZh!Context(q, mom)
    [] cls = "hgdd" -> M_hgdd!Context(q, mom)
    [] cls = "hguu" -> M_hguu!Context(q, mom)
    [] cls = "hhWW" -> M_hhWW!Context(q, mom)
    [] cls = "hhZZ" -> M_hhZZ!Context(q, mom)
    [] cls = "hhhh" -> M_hhhh!Context(q, mom)
    [] cls = "hnWe" -> M_hnWe!Context(q, mom)
    [] cls = "menn" -> M_menn!Context(q, mom)
    [] cls = "mnen" -> M_mnen!Context(q, mom)
    [] cls = "nWWn" -> M_nWWn!Context(q, mom)
    [] cls = "nZZn" -> M_nZZn!Context(q, mom)
    [] cls = "nZnh" -> M_nZnh!Context(q, mom)
    [] cls = "nenenene" -> M_nenenene!Context(q, mom)
    [] cls = "nenenene2" -> M_nenenene2!Context(q, mom)
    [] cls = "nenenmnm" -> M_nenenmnm!Context(q, mom)
    [] cls = "nenmnenm" -> M_nenmnenm!Context(q, mom)
    [] cls = "nnWW" -> M_nnWW!Context(q, mom)
    [] cls = "nnZZ" -> M_nnZZ!Context(q, mom)
    [] cls = "nnZh" -> M_nnZh!Context(q, mom)
    [] cls = "uAAu" -> M_uAAu!Context(q, mom)
    [] cls = "uAuh" -> M_uAuh!Context(q, mom)
    [] cls = "uWWu" -> M_uWWu!Context(q, mom)
    [] cls = "uZZu" -> M_uZZu!Context(q, mom)
    [] cls = "uZuh" -> M_uZuh!Context(q, mom)
    [] cls = "ubdt" -> M_ubdt!Context(q, mom)
    [] cls = "ucuc" -> M_ucuc!Context(q, mom)
    [] cls = "udAW" -> M_udAW!Context(q, mom)
    [] cls = "udWh" -> M_udWh!Context(q, mom)
    [] cls = "udZW" -> M_udZW!Context(q, mom)
    [] cls = "udnl" -> M_udnl!Context(q, mom)
    [] cls = "udtb" -> M_udtb!Context(q, mom)
    [] cls = "udud" -> M_udud!Context(q, mom)
    [] cls = "ueeu" -> M_ueeu!Context(q, mom)
    [] cls = "uguh" -> M_uguh!Context(q, mom)
    [] cls = "uhWd" -> M_uhWd!Context(q, mom)
    [] cls = "uhuh" -> M_uhuh!Context(q, mom)
    [] cls = "ulnd" -> M_ulnd!Context(q, mom)
    [] cls = "unnu" -> M_unnu!Context(q, mom)
    [] cls = "usus" -> M_usus!Context(q, mom)
    [] cls = "uuAA" -> M_uuAA!Context(q, mom)
    [] cls = "uuAh" -> M_uuAh!Context(q, mom)
    [] cls = "uuWW" -> M_uuWW!Context(q, mom)
    [] cls = "uuZZ" -> M_uuZZ!Context(q, mom)
    [] cls = "uuZh" -> M_uuZh!Context(q, mom)
    [] cls = "uucc" -> M_uucc!Context(q, mom)
    [] cls = "uudd" -> M_uudd!Context(q, mom)
    [] cls = "uuee" -> M_uuee!Context(q, mom)
    [] cls = "uuhh" -> M_uuhh!Context(q, mom)
    [] cls = "uunn" -> M_uunn!Context(q, mom)
    [] cls = "uuss" -> M_uuss!Context(q, mom)
    [] cls = "uuuu" -> M_uuuu!Context(q, mom)
    [] cls = "uuuu2" -> M_uuuu2!Context(q, mom)

\* The value of method f of class cls in context c; ds are its spin arguments.
ValueOf(cls, f, c, ds) ==
  CASE cls = "" -> <<>>
    [] cls = "AAWW" -> (CASE f = "amp" -> M_AAWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AAWW!amp2(c) [] f = "amp2_Aplus_Aminus" -> M_AAWW!amp2_Aplus_Aminus(c) [] f = "amp2_Aplus_Aplus" -> M_AAWW!amp2_Aplus_Aplus(c))
    [] cls = "AAdd" -> (CASE f = "amp" -> M_AAdd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AAdd!amp2(c) [] f = "amp2_Aplus_Aminus" -> M_AAdd!amp2_Aplus_Aminus(c) [] f = "amp2_Aplus_Aplus" -> M_AAdd!amp2_Aplus_Aplus(c))
    [] cls = "AAee" -> (CASE f = "amp" -> M_AAee!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AAee!amp2(c) [] f = "amp2_Aplus_Aminus" -> M_AAee!amp2_Aplus_Aminus(c) [] f = "amp2_Aplus_Aplus" -> M_AAee!amp2_Aplus_Aplus(c))
    [] cls = "AAuu" -> (CASE f = "amp" -> M_AAuu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AAuu!amp2(c) [] f = "amp2_Aplus_Aminus" -> M_AAuu!amp2_Aplus_Aminus(c) [] f = "amp2_Aplus_Aplus" -> M_AAuu!amp2_Aplus_Aplus(c))
    [] cls = "AWAW" -> (CASE f = "amp" -> M_AWAW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AWAW!amp2(c) [] f = "amp2_Aminus" -> M_AWAW!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AWAW!amp2_Aplus(c))
    [] cls = "AWWh" -> (CASE f = "amp" -> M_AWWh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_AWWh!amp2(c) [] f = "amp2_Aplus" -> M_AWWh!amp2_Aplus(c))
    [] cls = "AWZW" -> (CASE f = "amp" -> M_AWZW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AWZW!amp2(c) [] f = "amp2_Aplus" -> M_AWZW!amp2_Aplus(c))
    [] cls = "AWud" -> (CASE f = "amp" -> M_AWud!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AWud!amp2(c) [] f = "amp2_Aplus" -> M_AWud!amp2_Aplus(c))
    [] cls = "AZWW" -> (CASE f = "amp" -> M_AZWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AZWW!amp2(c) [] f = "amp2_Aplus" -> M_AZWW!amp2_Aplus(c))
    [] cls = "AZdd" -> (CASE f = "amp" -> M_AZdd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AZdd!amp2(c) [] f = "amp2_Aminus" -> M_AZdd!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AZdd!amp2_Aplus(c))
    [] cls = "AZee" -> (CASE f = "amp" -> M_AZee!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AZee!amp2(c) [] f = "amp2_Aminus" -> M_AZee!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AZee!amp2_Aplus(c))
    [] cls = "AZuu" -> (CASE f = "amp" -> M_AZuu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AZuu!amp2(c) [] f = "amp2_Aminus" -> M_AZuu!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AZuu!amp2_Aplus(c))
    [] cls = "AdZd" -> (CASE f = "amp" -> M_AdZd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AdZd!amp2(c) [] f = "amp2_Aminus" -> M_AdZd!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AdZd!amp2_Aplus(c))
    [] cls = "AeZe" -> (CASE f = "amp" -> M_AeZe!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AeZe!amp2(c) [] f = "amp2_Aminus" -> M_AeZe!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AeZe!amp2_Aplus(c))
    [] cls = "AhWW" -> (CASE f = "amp" -> M_AhWW!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_AhWW!amp2(c) [] f = "amp2_Aplus" -> M_AhWW!amp2_Aplus(c))
    [] cls = "AnWe" -> (CASE f = "amp" -> M_AnWe!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_AnWe!amp2(c) [] f = "amp2_Aplus" -> M_AnWe!amp2_Aplus(c))
    [] cls = "AuZu" -> (CASE f = "amp" -> M_AuZu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_AuZu!amp2(c) [] f = "amp2_Aminus" -> M_AuZu!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_AuZu!amp2_Aplus(c))
    [] cls = "WWWW" -> (CASE f = "amp" -> M_WWWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_WWWW!amp2(c))
    [] cls = "WWWW2" -> (CASE f = "amp" -> M_WWWW2!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_WWWW2!amp2(c))
    [] cls = "WdWd" -> (CASE f = "amp" -> M_WdWd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_WdWd!amp2(c))
    [] cls = "WdZu" -> (CASE f = "amp" -> M_WdZu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_WdZu!amp2(c))
    [] cls = "ZWWh" -> (CASE f = "amp" -> M_ZWWh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ZWWh!amp2(c))
    [] cls = "ZWZW" -> (CASE f = "amp" -> M_ZWZW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ZWZW!amp2(c))
    [] cls = "ZZWW" -> (CASE f = "amp" -> M_ZZWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ZZWW!amp2(c))
    [] cls = "ZZZZ" -> (CASE f = "amp" -> M_ZZZZ!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ZZZZ!amp2(c))
    [] cls = "ZhWW" -> (CASE f = "amp" -> M_ZhWW!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ZhWW!amp2(c))
    [] cls = "ZnWe" -> (CASE f = "amp" -> M_ZnWe!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ZnWe!amp2(c))
    [] cls = "dAAd" -> (CASE f = "amp" -> M_dAAd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dAAd!amp2(c) [] f = "amp2_Aminus" -> M_dAAd!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_dAAd!amp2_Aplus(c))
    [] cls = "dAdh" -> (CASE f = "amp" -> M_dAdh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_dAdh!amp2(c) [] f = "amp2_Aplus" -> M_dAdh!amp2_Aplus(c))
    [] cls = "dAgd" -> (CASE f = "amp" -> M_dAgd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dAgd!amp2(c) [] f = "amp2_Aminus" -> M_dAgd!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_dAgd!amp2_Aplus(c))
    [] cls = "dWgu" -> (CASE f = "amp" -> M_dWgu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dWgu!amp2(c))
    [] cls = "dZZd" -> (CASE f = "amp" -> M_dZZd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dZZd!amp2(c))
    [] cls = "dZdh" -> (CASE f = "amp" -> M_dZdh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_dZdh!amp2(c))
    [] cls = "ddAA" -> (CASE f = "amp" -> M_ddAA!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ddAA!amp2(c))
    [] cls = "ddAh" -> (CASE f = "amp" -> M_ddAh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ddAh!amp2(c))
    [] cls = "ddWW" -> (CASE f = "amp" -> M_ddWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ddWW!amp2(c))
    [] cls = "ddZZ" -> (CASE f = "amp" -> M_ddZZ!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ddZZ!amp2(c))
    [] cls = "ddZh" -> (CASE f = "amp" -> M_ddZh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ddZh!amp2(c))
    [] cls = "dddd" -> (CASE f = "amp_gluon_S" -> M_dddd!amp_gluon_S(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon_T" -> M_dddd!amp_gluon_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_S" -> M_dddd!amp_rest_S(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_T" -> M_dddd!amp_rest_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dddd!amp2(c))
    [] cls = "dddd2" -> (CASE f = "amp_gluon_T" -> M_dddd2!amp_gluon_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon_U" -> M_dddd2!amp_gluon_U(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_T" -> M_dddd2!amp_rest_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_U" -> M_dddd2!amp_rest_U(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dddd2!amp2(c))
    [] cls = "ddee" -> (CASE f = "amp" -> M_ddee!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ddee!amp2(c))
    [] cls = "ddhh" -> (CASE f = "amp" -> M_ddhh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_ddhh!amp2(c))
    [] cls = "ddnn" -> (CASE f = "amp" -> M_ddnn!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_ddnn!amp2(c))
    [] cls = "ddss" -> (CASE f = "amp_gluon" -> M_ddss!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_ddss!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ddss!amp2(c))
    [] cls = "deed" -> (CASE f = "amp" -> M_deed!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_deed!amp2(c))
    [] cls = "dgdh" -> (CASE f = "amp" -> M_dgdh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_dgdh!amp2(c) [] f = "amp2_gplus" -> M_dgdh!amp2_gplus(c))
    [] cls = "dggd" -> (CASE f = "amp_Num" -> M_dggd!amp_Num(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dggd!amp2(c) [] f = "amp2_gminus" -> M_dggd!amp2_gminus(c) [] f = "amp2_gplus" -> M_dggd!amp2_gplus(c))
    [] cls = "dhdh" -> (CASE f = "amp" -> M_dhdh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_dhdh!amp2(c))
    [] cls = "dnnd" -> (CASE f = "amp" -> M_dnnd!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_dnnd!amp2(c))
    [] cls = "dsds" -> (CASE f = "amp_gluon" -> M_dsds!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_dsds!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_dsds!amp2(c))
    [] cls = "eAAe" -> (CASE f = "amp" -> M_eAAe!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eAAe!amp2(c) [] f = "amp2_Aplus" -> M_eAAe!amp2_Aplus(c))
    [] cls = "eAeh" -> (CASE f = "amp" -> M_eAeh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_eAeh!amp2(c) [] f = "amp2_Aplus" -> M_eAeh!amp2_Aplus(c))
    [] cls = "eWWe" -> (CASE f = "amp" -> M_eWWe!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eWWe!amp2(c))
    [] cls = "eZZe" -> (CASE f = "amp" -> M_eZZe!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eZZe!amp2(c))
    [] cls = "eZeh" -> (CASE f = "amp" -> M_eZeh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_eZeh!amp2(c))
    [] cls = "eeAA" -> (CASE f = "amp" -> M_eeAA!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeAA!amp2(c))
    [] cls = "eeAZ" -> (CASE f = "amp" -> M_eeAZ!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeAZ!amp2(c))
    [] cls = "eeAh" -> (CASE f = "amp" -> M_eeAh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_eeAh!amp2(c))
    [] cls = "eeWW" -> (CASE f = "amp" -> M_eeWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeWW!amp2(c))
    [] cls = "eeZZ" -> (CASE f = "amp" -> M_eeZZ!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeZZ!amp2(c))
    [] cls = "eeZh" -> (CASE f = "amp" -> M_eeZh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_eeZh!amp2(c))
    [] cls = "eeee" -> (CASE f = "amp" -> M_eeee!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeee!amp2(c))
    [] cls = "eeee2" -> (CASE f = "amp" -> M_eeee2!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeee2!amp2(c))
    [] cls = "eeeeQED" -> (CASE f = "amp" -> M_eeeeQED!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eeeeQED!amp2(c))
    [] cls = "eehh" -> (CASE f = "amp" -> M_eehh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_eehh!amp2(c))
    [] cls = "eemm" -> (CASE f = "amp" -> M_eemm!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eemm!amp2(c))
    [] cls = "eemmQED" -> (CASE f = "amp" -> M_eemmQED!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_eemmQED!amp2(c))
    [] cls = "eenene" -> (CASE f = "amp" -> M_eenene!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_eenene!amp2(c))
    [] cls = "eenmnm" -> (CASE f = "amp" -> M_eenmnm!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_eenmnm!amp2(c))
    [] cls = "eheh" -> (CASE f = "amp" -> M_eheh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_eheh!amp2(c))
    [] cls = "emem" -> (CASE f = "amp" -> M_emem!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_emem!amp2(c))
    [] cls = "enAW" -> (CASE f = "amp" -> M_enAW!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_enAW!amp2(c))
    [] cls = "enWh" -> (CASE f = "amp" -> M_enWh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_enWh!amp2(c))
    [] cls = "enZW" -> (CASE f = "amp" -> M_enZW!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_enZW!amp2(c))
    [] cls = "enenee" -> (CASE f = "amp" -> M_enenee!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_enenee!amp2(c))
    [] cls = "enmenm" -> (CASE f = "amp" -> M_enmenm!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_enmenm!amp2(c))
    [] cls = "gAdd" -> (CASE f = "amp" -> M_gAdd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gAdd!amp2(c) [] f = "amp2_gplus_Aminus" -> M_gAdd!amp2_gplus_Aminus(c) [] f = "amp2_gplus_Aplus" -> M_gAdd!amp2_gplus_Aplus(c))
    [] cls = "gAuu" -> (CASE f = "amp" -> M_gAuu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gAuu!amp2(c) [] f = "amp2_gplus_Aminus" -> M_gAuu!amp2_gplus_Aminus(c) [] f = "amp2_gplus_Aplus" -> M_gAuu!amp2_gplus_Aplus(c))
    [] cls = "gWud" -> (CASE f = "amp" -> M_gWud!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gWud!amp2(c) [] f = "amp2_gplus" -> M_gWud!amp2_gplus(c))
    [] cls = "gZdd" -> (CASE f = "amp" -> M_gZdd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gZdd!amp2(c) [] f = "amp2_gminus" -> M_gZdd!amp2_gminus(c) [] f = "amp2_gplus" -> M_gZdd!amp2_gplus(c))
    [] cls = "gZuu" -> (CASE f = "amp" -> M_gZuu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gZuu!amp2(c) [] f = "amp2_gminus" -> M_gZuu!amp2_gminus(c) [] f = "amp2_gplus" -> M_gZuu!amp2_gplus(c))
    [] cls = "gdZd" -> (CASE f = "amp" -> M_gdZd!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gdZd!amp2(c) [] f = "amp2_gminus" -> M_gdZd!amp2_gminus(c) [] f = "amp2_gplus" -> M_gdZd!amp2_gplus(c))
    [] cls = "ggdd" -> (CASE f = "amp_Num" -> M_ggdd!amp_Num(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ggdd!amp2(c) [] f = "amp2_Feynman" -> M_ggdd!amp2_Feynman(c) [] f = "amp2_gplus_gminus" -> M_ggdd!amp2_gplus_gminus(c) [] f = "amp2_gplus_gplus" -> M_ggdd!amp2_gplus_gplus(c))
    [] cls = "gggg" -> (CASE f = "amp" -> M_gggg!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gggg!amp2(c) [] f = "amp2_Feynman" -> M_gggg!amp2_Feynman(c) [] f = "amp2_gminus_gminus" -> M_gggg!amp2_gminus_gminus(c) [] f = "amp2_gminus_gplus" -> M_gggg!amp2_gminus_gplus(c) [] f = "amp2_gplus_gminus" -> M_gggg!amp2_gplus_gminus(c) [] f = "amp2_gplus_gplus" -> M_gggg!amp2_gplus_gplus(c))
    [] cls = "gguu" -> (CASE f = "amp_Num" -> M_gguu!amp_Num(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gguu!amp2(c) [] f = "amp2_Feynman" -> M_gguu!amp2_Feynman(c) [] f = "amp2_gplus_gminus" -> M_gguu!amp2_gplus_gminus(c) [] f = "amp2_gplus_gplus" -> M_gguu!amp2_gplus_gplus(c))
    [] cls = "guAu" -> (CASE f = "amp" -> M_guAu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_guAu!amp2(c) [] f = "amp2_gminus" -> M_guAu!amp2_gminus(c) [] f = "amp2_gplus" -> M_guAu!amp2_gplus(c))
    [] cls = "guZu" -> (CASE f = "amp" -> M_guZu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_guZu!amp2(c) [] f = "amp2_gminus" -> M_guZu!amp2_gminus(c) [] f = "amp2_gplus" -> M_guZu!amp2_gplus(c))
    [] cls = "gugu" -> (CASE f = "amp_Num" -> M_gugu!amp_Num(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_gugu!amp2(c) [] f = "amp2_gminus" -> M_gugu!amp2_gminus(c) [] f = "amp2_gplus" -> M_gugu!amp2_gplus(c))
    [] cls = "hWWh" -> (CASE f = "amp" -> M_hWWh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_hWWh!amp2(c))
    [] cls = "hZZh" -> (CASE f = "amp" -> M_hZZh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_hZZh!amp2(c))
    [] cls = "hgdd" -> (CASE f = "amp" -> M_hgdd!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_hgdd!amp2(c) [] f = "amp2_gplus" -> M_hgdd!amp2_gplus(c))
    [] cls = "hguu" -> (CASE f = "amp" -> M_hguu!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_hguu!amp2(c) [] f = "amp2_gplus" -> M_hguu!amp2_gplus(c))
    [] cls = "hhWW" -> (CASE f = "amp" -> M_hhWW!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_hhWW!amp2(c))
    [] cls = "hhZZ" -> (CASE f = "amp" -> M_hhZZ!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_hhZZ!amp2(c))
    [] cls = "hhhh" -> (CASE f = "amp" -> M_hhhh!amp(c) [] f = "amp2" -> M_hhhh!amp2(c))
    [] cls = "hnWe" -> (CASE f = "amp" -> M_hnWe!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_hnWe!amp2(c))
    [] cls = "menn" -> (CASE f = "amp" -> M_menn!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_menn!amp2(c))
    [] cls = "mnen" -> (CASE f = "amp" -> M_mnen!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_mnen!amp2(c))
    [] cls = "nWWn" -> (CASE f = "amp" -> M_nWWn!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_nWWn!amp2(c))
    [] cls = "nZZn" -> (CASE f = "amp" -> M_nZZn!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_nZZn!amp2(c))
    [] cls = "nZnh" -> (CASE f = "amp" -> M_nZnh!amp(c, ds[1]) [] f = "amp2" -> M_nZnh!amp2(c))
    [] cls = "nenenene" -> (CASE f = "amp" -> M_nenenene!amp(c) [] f = "amp2" -> M_nenenene!amp2(c))
    [] cls = "nenenene2" -> (CASE f = "amp" -> M_nenenene2!amp(c) [] f = "amp2" -> M_nenenene2!amp2(c))
    [] cls = "nenenmnm" -> (CASE f = "amp" -> M_nenenmnm!amp(c) [] f = "amp2" -> M_nenenmnm!amp2(c))
    [] cls = "nenmnenm" -> (CASE f = "amp" -> M_nenmnenm!amp(c) [] f = "amp2" -> M_nenmnenm!amp2(c))
    [] cls = "nnWW" -> (CASE f = "amp" -> M_nnWW!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_nnWW!amp2(c))
    [] cls = "nnZZ" -> (CASE f = "amp" -> M_nnZZ!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_nnZZ!amp2(c))
    [] cls = "nnZh" -> (CASE f = "amp" -> M_nnZh!amp(c, ds[1]) [] f = "amp2" -> M_nnZh!amp2(c))
    [] cls = "uAAu" -> (CASE f = "amp" -> M_uAAu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uAAu!amp2(c) [] f = "amp2_Aminus" -> M_uAAu!amp2_Aminus(c) [] f = "amp2_Aplus" -> M_uAAu!amp2_Aplus(c))
    [] cls = "uAuh" -> (CASE f = "amp" -> M_uAuh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uAuh!amp2(c) [] f = "amp2_Aplus" -> M_uAuh!amp2_Aplus(c))
    [] cls = "uWWu" -> (CASE f = "amp" -> M_uWWu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uWWu!amp2(c))
    [] cls = "uZZu" -> (CASE f = "amp" -> M_uZZu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uZZu!amp2(c))
    [] cls = "uZuh" -> (CASE f = "amp" -> M_uZuh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uZuh!amp2(c))
    [] cls = "ubdt" -> (CASE f = "amp" -> M_ubdt!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ubdt!amp2(c))
    [] cls = "ucuc" -> (CASE f = "amp_gluon" -> M_ucuc!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_ucuc!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ucuc!amp2(c))
    [] cls = "udAW" -> (CASE f = "amp" -> M_udAW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_udAW!amp2(c))
    [] cls = "udWh" -> (CASE f = "amp" -> M_udWh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_udWh!amp2(c))
    [] cls = "udZW" -> (CASE f = "amp" -> M_udZW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_udZW!amp2(c))
    [] cls = "udnl" -> (CASE f = "amp" -> M_udnl!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_udnl!amp2(c))
    [] cls = "udtb" -> (CASE f = "amp" -> M_udtb!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_udtb!amp2(c))
    [] cls = "udud" -> (CASE f = "amp_W" -> M_udud!amp_W(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon" -> M_udud!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_udud!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_udud!amp2(c))
    [] cls = "ueeu" -> (CASE f = "amp" -> M_ueeu!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_ueeu!amp2(c))
    [] cls = "uguh" -> (CASE f = "amp" -> M_uguh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uguh!amp2(c) [] f = "amp2_gplus" -> M_uguh!amp2_gplus(c))
    [] cls = "uhWd" -> (CASE f = "amp" -> M_uhWd!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uhWd!amp2(c))
    [] cls = "uhuh" -> (CASE f = "amp" -> M_uhuh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_uhuh!amp2(c))
    [] cls = "ulnd" -> (CASE f = "amp" -> M_ulnd!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_ulnd!amp2(c))
    [] cls = "unnu" -> (CASE f = "amp" -> M_unnu!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_unnu!amp2(c))
    [] cls = "usus" -> (CASE f = "amp_gluon" -> M_usus!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_usus!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_usus!amp2(c))
    [] cls = "uuAA" -> (CASE f = "amp" -> M_uuAA!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuAA!amp2(c))
    [] cls = "uuAh" -> (CASE f = "amp" -> M_uuAh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uuAh!amp2(c))
    [] cls = "uuWW" -> (CASE f = "amp" -> M_uuWW!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuWW!amp2(c))
    [] cls = "uuZZ" -> (CASE f = "amp" -> M_uuZZ!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuZZ!amp2(c))
    [] cls = "uuZh" -> (CASE f = "amp" -> M_uuZh!amp(c, ds[1], ds[2], ds[3]) [] f = "amp2" -> M_uuZh!amp2(c))
    [] cls = "uucc" -> (CASE f = "amp_gluon" -> M_uucc!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_uucc!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uucc!amp2(c))
    [] cls = "uudd" -> (CASE f = "amp_W" -> M_uudd!amp_W(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon" -> M_uudd!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_uudd!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uudd!amp2(c))
    [] cls = "uuee" -> (CASE f = "amp" -> M_uuee!amp(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuee!amp2(c))
    [] cls = "uuhh" -> (CASE f = "amp" -> M_uuhh!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_uuhh!amp2(c))
    [] cls = "uunn" -> (CASE f = "amp" -> M_uunn!amp(c, ds[1], ds[2]) [] f = "amp2" -> M_uunn!amp2(c))
    [] cls = "uuss" -> (CASE f = "amp_gluon" -> M_uuss!amp_gluon(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest" -> M_uuss!amp_rest(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuss!amp2(c))
    [] cls = "uuuu" -> (CASE f = "amp_gluon_S" -> M_uuuu!amp_gluon_S(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon_T" -> M_uuuu!amp_gluon_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_S" -> M_uuuu!amp_rest_S(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_T" -> M_uuuu!amp_rest_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuuu!amp2(c))
    [] cls = "uuuu2" -> (CASE f = "amp_gluon_T" -> M_uuuu2!amp_gluon_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_gluon_U" -> M_uuuu2!amp_gluon_U(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_T" -> M_uuuu2!amp_rest_T(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp_rest_U" -> M_uuuu2!amp_rest_U(c, ds[1], ds[2], ds[3], ds[4]) [] f = "amp2" -> M_uuuu2!amp2(c))
==============================================================================
