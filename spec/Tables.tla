------------------------------- MODULE Tables -------------------------------
(* The published byte-to-word tables the built-in configurations use, copied   *)
(* independently of the implementation: the specification's own oracle.        *)
(* Entry b+1 belongs to byte b.                                                 *)

(* gear, 32 bits, as <<high 16 bits, low 16 bits>> *)
GEAR32 == <<
  <<45192,54185>>, <<22098,51191>>, <<17842,35177>>, <<27402,35285>>, <<13967,22334>>, <<7622,14044>>, <<8314,19534>>, <<42100,45894>>,
  <<15110,43070>>, <<37095,36204>>, <<57801,11767>>, <<36501,1338>>, <<23086,62705>>, <<42255,44180>>, <<3699,1003>>, <<39344,32476>>,
  <<26781,12213>>, <<0,20610>>, <<50352,33542>>, <<16048,26506>>, <<61855,34731>>, <<61970,40895>>, <<18449,18775>>, <<0,262>>,
  <<8122,14208>>, <<15344,28630>>, <<39272,32407>>, <<31137,1651>>, <<58540,53150>>, <<9504,59167>>, <<11221,54269>>, <<222,19917>>,
  <<60073,12572>>, <<56180,36534>>, <<44887,39565>>, <<34470,58842>>, <<52271,49930>>, <<13662,11006>>, <<11673,51444>>, <<47838,19274>>,
  <<63413,6258>>, <<12934,46680>>, <<0,46728>>, <<41237,55012>>, <<18511,32412>>, <<52426,31671>>, <<48933,33958>>, <<44519,59411>>,
  <<0,28820>>, <<35558,37128>>, <<48503,27351>>, <<64363,31>>, <<51108,29880>>, <<47862,61718>>, <<2507,8027>>, <<45234,6630>>,
  <<204,48184>>, <<52356,40202>>, <<29603,61309>>, <<51207,53971>>, <<32554,51606>>, <<53303,43115>>, <<62449,31846>>, <<44198,9904>>,
  <<30042,39223>>, <<36995,32486>>, <<28392,44435>>, <<0,55777>>, <<40454,15282>>, <<1963,30705>>, <<60501,597>>, <<30971,38056>>,
  <<51025,3611>>, <<0,12811>>, <<33404,13094>>, <<5223,24331>>, <<9851,54182>>, <<61841,28665>>, <<34338,7039>>, <<40382,52967>>,
  <<59992,63690>>, <<141,6534>>, <<27960,28751>>, <<57394,51975>>, <<8845,8694>>, <<25436,45503>>, <<17952,41331>>, <<42983,57315>>,
  <<3088,51859>>, <<10023,65256>>, <<41695,7277>>, <<19917,53676>>, <<0,28927>>, <<41644,59515>>, <<39058,10074>>, <<49798,4481>>,
  <<48025,29344>>, <<61296,52535>>, <<0,1299>>, <<49240,46616>>, <<2536,20613>>, <<37271,64315>>, <<32286,25197>>, <<21004,21584>>,
  <<48865,31089>>, <<28633,44082>>, <<35,38268>>, <<40988,32126>>, <<43938,51032>>, <<3359,41166>>, <<2998,42379>>, <<17203,56667>>,
  <<49917,15229>>, <<64321,32804>>, <<26021,24965>>, <<63098,701>>, <<26991,4573>>, <<0,8226>>, <<36054,48785>>, <<26961,35254>>,
  <<61076,21429>>, <<55548,24233>>, <<43910,48921>>, <<0,50869>>, <<9843,4119>>, <<60717,4123>>, <<15169,60804>>, <<5094,8722>>,
  <<41749,62955>>, <<34838,49998>>, <<59705,23452>>, <<44,59680>>, <<17027,56093>>, <<55165,17946>>, <<58092,6116>>, <<47328,48704>>,
  <<56993,24772>>, <<32492,34504>>, <<8473,44306>>, <<42700,62571>>, <<11346,52958>>, <<11700,34577>>, <<0,61654>>, <<15829,55497>>,
  <<35352,29346>>, <<62082,42180>>, <<32800,60460>>, <<26259,46816>>, <<0,52761>>, <<8395,22325>>, <<30254,48951>>, <<8315,65154>>,
  <<55165,49426>>, <<39847,33602>>, <<8573,50451>>, <<45691,6697>>, <<213,52632>>, <<29155,39808>>, <<32343,10992>>, <<41587,20271>>,
  <<49026,50869>>, <<23611,60102>>, <<52680,37819>>, <<27920,34145>>, <<30712,44592>>, <<37244,27521>>, <<23413,46745>>, <<0,53098>>,
  <<62404,2810>>, <<8291,4730>>, <<25117,58914>>, <<53640,44061>>, <<4208,14050>>, <<0,47199>>, <<62191,20044>>, <<55766,56934>>,
  <<41468,31061>>, <<60293,64771>>, <<48679,20527>>, <<58115,16977>>, <<17427,25811>>, <<130,45932>>, <<45381,37123>>, <<540,1692>>,
  <<10512,57287>>, <<29531,13630>>, <<52804,12588>>, <<48276,11845>>, <<61520,34471>>, <<65219,45589>>, <<174,4181>>, <<62795,16516>>,
  <<0,32729>>, <<49085,40691>>, <<43012,12335>>, <<14798,18775>>, <<65465,58020>>, <<21945,44317>>, <<0,35531>>, <<18658,49096>>,
  <<35811,38977>>, <<3623,4630>>, <<54544,38632>>, <<4353,47639>>, <<49710,30479>>, <<5769,61426>>, <<169,10777>>, <<48246,22928>>,
  <<50708,16867>>, <<2017,14892>>, <<37579,59780>>, <<36687,62834>>, <<2966,28864>>, <<25237,23128>>, <<25695,33765>>, <<16892,58646>>,
  <<48090,38728>>, <<0,43698>>, <<6518,6918>>, <<35727,24195>>, <<15965,7421>>, <<60508,7724>>, <<64247,57598>>, <<0,211>>,
  <<55871,36887>>, <<28927,36973>>, <<1319,54695>>, <<8920,59251>>, <<51627,28895>>, <<60836,50908>>, <<60655,8001>>, <<36,49842>>,
  <<1652,3477>>, <<7546,10651>>, <<46019,31922>>, <<51590,58311>>, <<40875,59958>>, <<28066,5317>>, <<6052,16088>>, <<28364,60497>>,
  <<63946,45833>>, <<19038,24773>>, <<0,26983>>, <<40357,7442>>, <<33842,7699>>, <<64317,28598>>, <<24624,24301>>, <<52159,19220>>,
  <<0,20323>>, <<2005,46977>>, <<58789,13938>>, <<22447,45620>>, <<6387,18167>>, <<25453,50773>>, <<52363,43849>>, <<25543,43270>>
>>

(* gear, 64 bits reduced modulo 2^50 (no mask looks at a higher bit), as <<bits 25..49, bits 0..24>> *)
GEAR64 == <<
  <<6935796,4257113>>, <<23329692,32317654>>, <<21279940,25785003>>, <<21293787,9357175>>, <<28024645,24785335>>, <<18574964,20371787>>, <<19277610,22336950>>, <<5874452,2333387>>,
  <<22290190,10729746>>, <<29799959,16956151>>, <<9894794,17668746>>, <<8559880,8836013>>, <<24803548,3802914>>, <<30820943,25198510>>, <<25294272,14210689>>, <<4156938,24161551>>,
  <<9951914,33370230>>, <<2638088,27173992>>, <<4293460,9423912>>, <<3392891,3623677>>, <<29611459,11367478>>, <<22011871,7063350>>, <<10791854,10003693>>, <<33610,21461957>>,
  <<18595853,10283724>>, <<3664689,27564909>>, <<4148161,14911307>>, <<8600021,5298403>>, <<6803249,1176608>>, <<7573443,22515825>>, <<15335100,1739419>>, <<19326702,17942643>>,
  <<9997869,8861999>>, <<4676363,29114623>>, <<30230267,2146159>>, <<24309005,17416881>>, <<31556961,19046702>>, <<18186080,32981607>>, <<14973536,2204795>>, <<19244362,315331>>,
  <<9189646,24149353>>, <<22752317,32713760>>, <<5981251,11478796>>, <<15430253,25858169>>, <<29314635,28500377>>, <<20831147,18080513>>, <<12735253,28373344>>, <<32770481,6143176>>,
  <<3688966,25662810>>, <<21529609,27157103>>, <<28666775,31340706>>, <<25169889,16564431>>, <<3824755,8111143>>, <<24677128,15424856>>, <<26193334,31944913>>, <<17625931,24988743>>,
  <<6167607,10988874>>, <<5145967,26689281>>, <<33013376,23787376>>, <<32074179,12434942>>, <<23382838,7935792>>, <<30684643,12911834>>, <<12464911,11165853>>, <<18044966,27977351>>,
  <<21797799,21650183>>, <<29324077,19705566>>, <<5687806,22415237>>, <<7139464,5500376>>, <<18733417,1891287>>, <<29096085,119474>>, <<8465139,6560580>>, <<30037026,10228934>>,
  <<8850915,12645877>>, <<1639835,14994147>>, <<1676054,9116205>>, <<28280228,15352132>>, <<32101156,26078443>>, <<12057793,16057182>>, <<17678330,3472264>>, <<23557020,7293400>>,
  <<8152420,1019722>>, <<9225033,16540888>>, <<3680221,12556854>>, <<23430120,31964748>>, <<9501526,21301392>>, <<5824480,2460069>>, <<5290446,10669681>>, <<32502229,15072088>>,
  <<6637973,20712939>>, <<33518658,11529595>>, <<26097404,31632159>>, <<15259139,24442147>>, <<3702742,20177486>>, <<7618018,26703894>>, <<18066778,2646089>>, <<17350894,32606553>>,
  <<12144673,4734489>>, <<6724531,5320824>>, <<166357,33331300>>, <<5966892,13189251>>, <<2638539,19259614>>, <<33398268,4095380>>, <<20002441,11946958>>, <<2762815,24860625>>,
  <<12368058,14820374>>, <<14031121,15291783>>, <<30064205,14663486>>, <<4112145,21741077>>, <<23309404,10718395>>, <<30435190,4074288>>, <<22201791,6338961>>, <<32419279,27420213>>,
  <<10337952,115107>>, <<12587562,7541031>>, <<11584210,17635531>>, <<16867011,25474383>>, <<25751219,31871075>>, <<1053054,11015339>>, <<23021718,28956754>>, <<12901236,28215895>>,
  <<2742917,14289960>>, <<3101837,7898206>>, <<23039117,4892519>>, <<6511332,6559205>>, <<25693127,565806>>, <<8916355,25938469>>, <<16171609,2533627>>, <<17893639,19454982>>,
  <<16446973,24145190>>, <<23176985,16890574>>, <<11390557,24247726>>, <<7639063,7476808>>, <<32345749,28559644>>, <<10685801,11642533>>, <<782903,15435371>>, <<6234140,33277052>>,
  <<11559530,19504388>>, <<4416617,9188916>>, <<14059855,26780569>>, <<8009136,27427823>>, <<23555963,5817879>>, <<4425908,28106115>>, <<7891833,27184105>>, <<15492294,19895433>>,
  <<3756309,16905604>>, <<22176263,8076530>>, <<7738981,18588054>>, <<31158351,5890835>>, <<6753510,8160235>>, <<28023547,4693051>>, <<23042988,30890587>>, <<33505566,23673205>>,
  <<14715161,27056597>>, <<29466946,6454531>>, <<14846452,23024105>>, <<26023166,6191126>>, <<15125528,29058605>>, <<30261302,24474444>>, <<26572803,16456227>>, <<27760565,15277957>>,
  <<23288449,2940402>>, <<32858883,23175390>>, <<4840867,21064088>>, <<4370606,1605121>>, <<5707862,2587741>>, <<3522697,2763921>>, <<14372054,30501223>>, <<6796659,26871451>>,
  <<359728,14553348>>, <<25771346,26306499>>, <<15929652,30509389>>, <<5639923,2836262>>, <<1798410,21718844>>, <<6041492,5585437>>, <<27731468,2322237>>, <<24064776,28964354>>,
  <<3975933,21467420>>, <<16679319,19500477>>, <<27793369,29293281>>, <<27338978,13461022>>, <<28469674,464950>>, <<22656570,32675902>>, <<13140363,16410352>>, <<216652,4705015>>,
  <<7332781,4936225>>, <<26910478,5744821>>, <<1611380,26138988>>, <<1516163,12450405>>, <<4412297,5739547>>, <<31001321,22138541>>, <<17312496,1327618>>, <<27279927,21161044>>,
  <<4189412,12369096>>, <<13597067,31366142>>, <<1579001,8736274>>, <<19180498,31840468>>, <<15815211,3652228>>, <<14061263,10518923>>, <<4548089,18421642>>, <<23061608,16513848>>,
  <<30154996,4765160>>, <<25758467,9871499>>, <<4944933,21242922>>, <<14486451,26403130>>, <<20678562,20015261>>, <<16251193,12305772>>, <<9768127,22434028>>, <<19712094,27359310>>,
  <<2159049,16562350>>, <<10294902,20047008>>, <<32817681,21929293>>, <<33208669,25004741>>, <<20471813,26622928>>, <<11349005,256769>>, <<29487861,596>>, <<7506790,25752217>>,
  <<21734509,8034511>>, <<5593471,4736506>>, <<17662797,32859477>>, <<28262817,28749142>>, <<9338506,4727257>>, <<988753,11586959>>, <<32538451,33273215>>, <<27101,1218075>>,
  <<29887426,110990>>, <<29898481,20602859>>, <<32166880,6910183>>, <<7584176,8131561>>, <<28864434,3947436>>, <<6516293,12456675>>, <<26189952,3401610>>, <<6379834,11301579>>,
  <<445095,27852980>>, <<18140569,4023044>>, <<29251916,13363925>>, <<24241072,24671131>>, <<32840485,21427594>>, <<17457879,25545814>>, <<2059355,27496324>>, <<7743630,26926059>>,
  <<22643849,20142843>>, <<19948282,1437394>>, <<3453864,3568308>>, <<9341194,5553031>>, <<17762780,29083670>>, <<12049237,19914125>>, <<3110599,1444493>>, <<27626100,26504424>>,
  <<2601372,1773763>>, <<14401719,30166544>>, <<10172725,6979925>>, <<31005219,27295709>>, <<27491285,30004116>>, <<14887659,1758013>>, <<30778524,33027062>>, <<30704480,31266939>>
>>

(* silvasur/buzhash table, 32 bits, as <<high 16 bits, low 16 bits>> *)
GOBUZ == <<
  <<4797,38183>>, <<62484,3306>>, <<39035,55009>>, <<30983,38992>>, <<44991,54585>>, <<54096,52746>>, <<33431,14641>>, <<40899,11164>>,
  <<10240,15240>>, <<49932,5034>>, <<27495,35892>>, <<22596,61213>>, <<43605,11288>>, <<19063,54248>>, <<53750,11936>>, <<26009,16764>>,
  <<64483,3706>>, <<63970,54766>>, <<41468,42030>>, <<16724,35177>>, <<4461,23385>>, <<44762,7706>>, <<50457,7191>>, <<21689,41931>>,
  <<29310,18730>>, <<23619,12177>>, <<12709,3022>>, <<49769,27382>>, <<8572,32800>>, <<4706,44796>>, <<44263,22820>>, <<39030,41039>>,
  <<44848,3010>>, <<16380,58358>>, <<54888,4021>>, <<53425,52952>>, <<26193,63554>>, <<29551,44527>>, <<48173,13353>>, <<45117,10500>>,
  <<32355,19364>>, <<57304,32140>>, <<31112,54842>>, <<19428,55603>>, <<27277,898>>, <<40467,11618>>, <<16105,51551>>, <<65216,23447>>,
  <<26887,44340>>, <<34326,53196>>, <<42666,48932>>, <<35537,51502>>, <<20266,65472>>, <<47221,6619>>, <<25974,60150>>, <<5595,57354>>,
  <<25569,56706>>, <<41835,27265>>, <<61101,39347>>, <<48234,17161>>, <<13432,53671>>, <<8578,48320>>, <<56656,53198>>, <<31922,21888>>,
  <<29447,21635>>, <<20539,32578>>, <<19669,3427>>, <<16205,38089>>, <<14431,52151>>, <<37082,61804>>, <<60641,2958>>, <<4545,51972>>,
  <<33130,35227>>, <<27042,40198>>, <<64265,2871>>, <<63886,61756>>, <<1893,13365>>, <<40725,56386>>, <<15171,43999>>, <<4916,10303>>,
  <<37875,55727>>, <<3261,65137>>, <<42888,42516>>, <<20308,54000>>, <<54327,20423>>, <<28757,31975>>, <<63297,64744>>, <<58550,63073>>,
  <<50736,52120>>, <<14458,25446>>, <<29428,10493>>, <<21392,2523>>, <<50494,14352>>, <<7706,21221>>, <<32104,5808>>, <<1039,39809>>,
  <<40089,51707>>, <<40762,62418>>, <<30541,4193>>, <<54728,16618>>, <<36372,33022>>, <<28388,572>>, <<12221,42293>>, <<55438,65402>>,
  <<55395,10794>>, <<17348,57380>>, <<16114,31089>>, <<50984,26365>>, <<58204,50736>>, <<18137,25120>>, <<17274,33668>>, <<59692,44812>>,
  <<25232,42110>>, <<42939,37432>>, <<3600,249>>, <<18919,27612>>, <<15055,46264>>, <<856,11150>>, <<28322,56910>>, <<11969,141>>,
  <<64712,57193>>, <<37314,65034>>, <<46193,51161>>, <<30603,59410>>, <<28882,39633>>, <<30273,7359>>, <<49922,59420>>, <<20036,20884>>,
  <<8931,43634>>, <<46679,25321>>, <<41600,56069>>, <<33402,42766>>, <<19539,6813>>, <<31328,48970>>, <<36825,23108>>, <<8841,44784>>,
  <<52560,56772>>, <<25498,44649>>, <<24552,24278>>, <<20183,9471>>, <<240,20349>>, <<38309,64688>>, <<34853,23829>>, <<42499,53961>>,
  <<63125,27227>>, <<21482,32574>>, <<46448,61989>>, <<11067,57859>>, <<41345,58382>>, <<50195,52686>>, <<42955,7867>>, <<53029,35615>>,
  <<20846,45078>>, <<51744,17798>>, <<53734,39060>>, <<59482,29651>>, <<32178,54146>>, <<44659,46179>>, <<13720,54851>>, <<20615,51300>>,
  <<55583,12470>>, <<57812,53735>>, <<29619,45879>>, <<52908,4659>>, <<36575,30789>>, <<42652,17865>>, <<56157,45995>>, <<10447,44520>>,
  <<60410,18919>>, <<52162,42585>>, <<22988,59761>>, <<38298,431>>, <<36585,43751>>, <<64303,454>>, <<23157,10294>>, <<40657,10625>>,
  <<24973,1462>>, <<37868,4787>>, <<17808,51065>>, <<60691,6050>>, <<1022,22581>>, <<31443,50935>>, <<54442,54709>>, <<6809,24279>>,
  <<9339,64164>>, <<27074,51097>>, <<29791,41989>>, <<50617,62009>>, <<50137,44732>>, <<42742,3595>>, <<57118,37335>>, <<43918,1052>>,
  <<60977,35014>>, <<14135,31390>>, <<49377,41919>>, <<6565,43492>>, <<22219,38230>>, <<50387,15679>>, <<64286,45118>>, <<63829,28759>>,
  <<7139,7479>>, <<53754,26097>>, <<62744,55060>>, <<22282,50978>>, <<62060,63082>>, <<9337,19783>>, <<35746,58370>>, <<16209,14310>>,
  <<13758,5203>>, <<17205,1144>>, <<40709,61064>>, <<13900,63951>>, <<14754,16103>>, <<42203,36169>>, <<49899,46034>>, <<50939,39381>>,
  <<57364,57264>>, <<29014,54309>>, <<57488,43130>>, <<19649,12152>>, <<6960,62723>>, <<1641,19066>>, <<26649,36049>>, <<12163,17853>>,
  <<40313,6542>>, <<55409,37951>>, <<8943,27892>>, <<59419,7189>>, <<1659,25048>>, <<64590,42229>>, <<65133,43863>>, <<7159,17594>>,
  <<42763,27173>>, <<45030,58386>>, <<50881,41052>>, <<36859,58318>>, <<50215,2801>>, <<62451,25459>>, <<50256,32216>>, <<24175,53730>>,
  <<22733,38713>>, <<18387,50613>>, <<57813,41795>>, <<15693,59978>>, <<35133,37294>>, <<47914,24106>>, <<3415,47104>>, <<25898,31945>>,
  <<27240,52477>>, <<25170,40715>>, <<60511,14038>>, <<30316,52954>>, <<38602,25583>>, <<41033,38968>>, <<55555,3929>>, <<33157,62674>>
>>

(* Borg base table, 32 bits (a Borg table is this XOR a 32-bit seed) *)
BORG == <<
  <<59384,12780>>, <<62466,25701>>, <<44981,3246>>, <<27989,15482>>, <<54841,61411>>, <<6567,47253>>, <<39610,23329>>, <<21527,54996>>,
  <<13821,11140>>, <<53750,41305>>, <<16270,12863>>, <<46105,21788>>, <<62532,52927>>, <<8668,15232>>, <<56973,7734>>, <<33955,9270>>,
  <<48819,23197>>, <<41839,9386>>, <<42214,390>>, <<39121,36862>>, <<16132,12190>>, <<56098,35789>>, <<2404,29879>>, <<23584,49911>>,
  <<63982,51314>>, <<59490,21109>>, <<47571,36736>>, <<54414,46870>>, <<8873,20660>>, <<15546,44714>>, <<50044,56787>>, <<36842,28522>>,
  <<7509,54566>>, <<32726,54195>>, <<55968,29422>>, <<17221,44096>>, <<41079,50754>>, <<36651,54363>>, <<10320,37136>>, <<21845,30227>>,
  <<65473,29457>>, <<55649,65519>>, <<58674,49799>>, <<43705,22839>>, <<18131,33637>>, <<45157,50947>>, <<62169,7439>>, <<37581,19376>>,
  <<16391,50962>>, <<62293,2525>>, <<20571,12137>>, <<21886,44417>>, <<12559,17763>>, <<48604,23528>>, <<38752,62348>>, <<28702,517>>,
  <<21,29252>>, <<5265,10278>>, <<56396,41771>>, <<26545,38622>>, <<23986,37608>>, <<35867,16491>>, <<499,16501>>, <<64037,8439>>,
  <<29628,14251>>, <<7704,48176>>, <<65068,27827>>, <<8389,8912>>, <<22073,58331>>, <<37931,55861>>, <<35226,63953>>, <<52948,16437>>,
  <<39116,603>>, <<9567,22385>>, <<28926,64036>>, <<59688,64077>>, <<11267,1029>>, <<47410,21904>>, <<8395,25533>>, <<41318,12381>>,
  <<32997,11274>>, <<43258,65071>>, <<6865,16253>>, <<53167,13957>>, <<27779,41369>>, <<32038,29066>>, <<56925,64729>>, <<31183,29525>>,
  <<35193,55291>>, <<60408,50526>>, <<60388,2276>>, <<52522,65466>>, <<58499,48750>>, <<57913,55006>>, <<24001,59872>>, <<1139,37663>>,
  <<34075,2428>>, <<44125,45641>>, <<2496,63986>>, <<55506,61748>>, <<59123,36417>>, <<45511,7153>>, <<21174,58587>>, <<1826,17444>>,
  <<27895,16005>>, <<20261,55452>>, <<30762,32116>>, <<4262,36301>>, <<14982,33161>>, <<54640,53980>>, <<26979,1861>>, <<38210,60806>>,
  <<13084,54962>>, <<43083,23336>>, <<1927,40093>>, <<14391,12132>>, <<29061,56081>>, <<9658,31875>>, <<262,5411>>, <<59001,12191>>,
  <<58847,2001>>, <<17185,46207>>, <<32036,27096>>, <<6714,20368>>, <<18622,10659>>, <<26256,29103>>, <<36552,56625>>, <<2064,49087>>,
  <<33082,1716>>, <<26707,33605>>, <<25990,24028>>, <<17319,7054>>, <<30817,39510>>, <<23092,17693>>, <<23514,41965>>, <<29165,51177>>,
  <<6060,39456>>, <<30929,3066>>, <<27678,32565>>, <<54552,14809>>, <<9228,48209>>, <<13137,15553>>, <<53940,63381>>, <<52394,33158>>,
  <<2987,59010>>, <<41788,61796>>, <<6342,17386>>, <<49610,4191>>, <<39257,5242>>, <<27965,38110>>, <<2917,20414>>, <<60816,11424>>,
  <<32131,23733>>, <<39354,5385>>, <<25669,51490>>, <<18782,30402>>, <<61553,38076>>, <<41315,7550>>, <<26480,30373>>, <<35327,65077>>,
  <<6729,48371>>, <<36460,38026>>, <<324,51479>>, <<36243,44705>>, <<5880,32223>>, <<51442,23881>>, <<8113,4759>>, <<10215,20685>>,
  <<12098,11681>>, <<57064,39543>>, <<5428,50755>>, <<17787,31627>>, <<44823,12154>>, <<27547,2518>>, <<13143,16255>>, <<61774,5572>>,
  <<21092,26581>>, <<44872,33345>>, <<34755,60941>>, <<13246,18700>>, <<38314,28242>>, <<17388,9262>>, <<55165,59803>>, <<53272,13135>>,
  <<23416,54279>>, <<18830,46699>>, <<45351,40872>>, <<45963,3750>>, <<36977,33654>>, <<58149,57058>>, <<36399,11450>>, <<51877,48620>>,
  <<40293,11350>>, <<44392,62923>>, <<42869,37295>>, <<35043,32488>>, <<63738,41505>>, <<64699,48711>>, <<20288,30598>>, <<44857,14473>>,
  <<62532,41433>>, <<5550,6703>>, <<16554,28823>>, <<28564,34476>>, <<10706,12963>>, <<58486,2537>>, <<59574,12799>>, <<47749,26100>>,
  <<4392,34633>>, <<18121,43064>>, <<60187,31960>>, <<62742,48049>>, <<64372,64928>>, <<265,38630>>, <<19609,18003>>, <<7560,38162>>,
  <<21468,55715>>, <<56583,18071>>, <<7800,57724>>, <<25468,39103>>, <<37643,45593>>, <<53119,30128>>, <<52115,22011>>, <<40546,12297>>,
  <<58470,55340>>, <<10489,26835>>, <<65203,34265>>, <<9102,620>>, <<47341,1376>>, <<3178,634>>, <<15727,60491>>, <<47947,11970>>,
  <<59157,796>>, <<60909,285>>, <<52676,54201>>, <<50262,64662>>, <<56590,59936>>, <<46047,36553>>, <<4661,6547>>, <<55755,45084>>,
  <<24625,18338>>, <<53047,53629>>, <<63484,55772>>, <<55381,28579>>, <<4172,33073>>, <<4885,10100>>, <<46193,22545>>, <<27250,49865>>,
  <<50606,14267>>, <<42860,57642>>, <<33104,55539>>, <<11970,37400>>, <<41823,2436>>, <<18624,25726>>, <<2911,63884>>, <<29065,16251>>
>>

=============================================================================