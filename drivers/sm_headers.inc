#include <iostream>
#include <string>
#include "spinas.h"
#include "include/AAWW.h"
#include "include/AAdd.h"
#include "include/AAee.h"
#include "include/AAuu.h"
#include "include/AWAW.h"
#include "include/AWWh.h"
#include "include/AWZW.h"
#include "include/AWud.h"
#include "include/AZWW.h"
#include "include/AZdd.h"
#include "include/AZee.h"
#include "include/AZuu.h"
#include "include/AdZd.h"
#include "include/AeZe.h"
#include "include/AhWW.h"
#include "include/AnWe.h"
#include "include/AuZu.h"
#include "include/WWWW.h"
#include "include/WWWW2.h"
#include "include/WdWd.h"
#include "include/WdZu.h"
#include "include/ZWWh.h"
#include "include/ZWZW.h"
#include "include/ZZWW.h"
#include "include/ZZZZ.h"
#include "include/ZhWW.h"
#include "include/ZnWe.h"
#include "include/dAAd.h"
#include "include/dAdh.h"
#include "include/dAgd.h"
#include "include/dWgu.h"
#include "include/dZZd.h"
#include "include/dZdh.h"
#include "include/ddAA.h"
#include "include/ddAh.h"
#include "include/ddWW.h"
#include "include/ddZZ.h"
#include "include/ddZh.h"
#include "include/dddd.h"
#include "include/dddd2.h"
#include "include/ddee.h"
#include "include/ddhh.h"
#include "include/ddnn.h"
#include "include/ddss.h"
#include "include/deed.h"
#include "include/dgdh.h"
#include "include/dggd.h"
#include "include/dhdh.h"
#include "include/dnnd.h"
#include "include/dsds.h"
#include "include/eAAe.h"
#include "include/eAeh.h"
#include "include/eWWe.h"
#include "include/eZZe.h"
#include "include/eZeh.h"
#include "include/eeAA.h"
#include "include/eeAZ.h"
#include "include/eeAh.h"
#include "include/eeWW.h"
#include "include/eeZZ.h"
#include "include/eeZh.h"
#include "include/eeee.h"
#include "include/eeee2.h"
#include "include/eeeeQED.h"
#include "include/eehh.h"
#include "include/eemm.h"
#include "include/eemmQED.h"
#include "include/eenene.h"
#include "include/eenmnm.h"
#include "include/eheh.h"
#include "include/emem.h"
#include "include/enAW.h"
#include "include/enWh.h"
#include "include/enZW.h"
#include "include/enenee.h"
#include "include/enmenm.h"
#include "include/gAdd.h"
#include "include/gAuu.h"
#include "include/gWud.h"
#include "include/gZdd.h"
#include "include/gZuu.h"
#include "include/gdZd.h"
#include "include/ggdd.h"
#include "include/gggg.h"
#include "include/gguu.h"
#include "include/guAu.h"
#include "include/guZu.h"
#include "include/gugu.h"
#include "include/hWWh.h"
#include "include/hZZh.h"
#include "include/hgdd.h"
#include "include/hguu.h"
#include "include/hhWW.h"
#include "include/hhZZ.h"
#include "include/hhhh.h"
#include "include/hnWe.h"
#include "include/menn.h"
#include "include/mnen.h"
#include "include/nWWn.h"
#include "include/nZZn.h"
#include "include/nZnh.h"
#include "include/nenenene.h"
#include "include/nenenene2.h"
#include "include/nenenmnm.h"
#include "include/nenmnenm.h"
#include "include/nnWW.h"
#include "include/nnZZ.h"
#include "include/nnZh.h"
#include "include/uAAu.h"
#include "include/uAuh.h"
#include "include/uWWu.h"
#include "include/uZZu.h"
#include "include/uZuh.h"
#include "include/ubdt.h"
#include "include/ucuc.h"
#include "include/udAW.h"
#include "include/udWh.h"
#include "include/udZW.h"
#include "include/udnl.h"
#include "include/udtb.h"
#include "include/udud.h"
#include "include/ueeu.h"
#include "include/uguh.h"
#include "include/uhWd.h"
#include "include/uhuh.h"
#include "include/ulnd.h"
#include "include/unnu.h"
#include "include/usus.h"
#include "include/uuAA.h"
#include "include/uuAh.h"
#include "include/uuWW.h"
#include "include/uuZZ.h"
#include "include/uuZh.h"
#include "include/uucc.h"
#include "include/uudd.h"
#include "include/uuee.h"
#include "include/uuhh.h"
#include "include/uunn.h"
#include "include/uuss.h"
#include "include/uuuu.h"
#include "include/uuuu2.h"
