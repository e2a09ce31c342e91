// Generated by tools/gen_graphs.cpp: all graphs on n nodes up to isomorphism (n = 6, 7, 8)
#pragma once
#include <cstdint>
#include <vector>
namespace vf {
inline const std::vector<std::uint32_t> kGraphs6{
0,656,1880,4060,5392,5905,6144,7040,7100,15360,15361,15480,15504,15505,15540,15744,
15748,15760,15768,15804,15870,16280,16384,21776,21812,22289,22528,22529,22564,22788,23184,23892,
24576,24608,25216,25264,26368,26369,26384,26624,26625,26696,26752,26880,26888,26896,27272,27520,
27532,27536,27580,27844,28608,28620,28624,28636,28672,28704,28706,29328,29952,29955,29984,29988,
30480,30481,30512,30513,30552,30720,30721,30752,30753,30826,30850,30896,30976,30978,30979,30984,
30992,31016,31616,31619,31626,31632,31660,31744,31745,31780,31781,31808,31809,31840,31841,31856,
31857,31888,31889,31924,31925,31990,32000,32001,32004,32005,32016,32017,32052,32066,32072,32104,
32120,32128,32132,32134,32135,32144,32148,32152,32188,32254,32256,32257,32376,32377,32400,32401,
32512,32513,32528,32529,32600,32601,32640,32641,32644,32645,32656,32657,32664,32700,32704,32706,
32707,32720,32722,32723,32728,32732,32736,32752,32760,32764,32766,32767};
inline const std::vector<std::uint32_t> kGraphs7{
0,40496,41984,44336,120320,259840,259896,259964,345088,377888,377920,393216,448048,450560,450561,454400,
454524,672272,746248,861216,861284,863265,870944,936464,976404,983040,983104,983106,990720,990723,992256,992259,
992320,992328,994560,994563,994672,999938,1000032,1000464,1000528,1007120,1007121,1007152,1007616,1007617,1007752,1007753,
1007872,1008002,1008112,1008160,1008161,1008296,1008640,1008641,1008648,1008672,1008673,1008902,1008912,1009152,1009160,1009164,
1009184,1009192,1009200,1010472,1011456,1011468,1011488,1011504,1011580,1015680,1015728,1015740,1040928,1040929,1041488,1041489,
1041920,1041922,1041923,1041928,1041952,1041954,1041955,1041968,1041992,1041996,1042024,1044272,1046064,1046065,1046132,1048112,
1048113,1048576,1130760,1258760,1266968,1307432,1307433,1308424,1308456,1308472,1360900,1393664,1395968,1400240,1426464,1426496,
1428768,1428848,1441792,1441856,1444096,1448480,1453324,1455244,1458432,1459208,1466764,1483776,1483779,1487904,1487905,1488034,
1496081,1499272,1499273,1499522,1499816,1499940,1500420,1500684,1502988,1528840,1528841,1529088,1529092,1529104,1529120,1533224,
1565992,1566056,1570080,1570081,1572864,1572932,1574912,1613824,1613825,1613892,1614048,1616896,1616897,1616928,1655044,1684481,
1684512,1684513,1684580,1686560,1686561,1687552,1687553,1687616,1687824,1688066,1688136,1688576,1688578,1688592,1688608,1690400,
1693188,1693220,1696160,1701300,1703936,1704000,1706256,1708544,1710608,1710744,1712128,1712129,1712648,1714976,1716353,1719200,
1720320,1720321,1720536,1720592,1720832,1720848,1721344,1721360,1721376,1723696,1728184,1736636,1745408,1745410,1745411,1745480,
1745504,1752592,1752593,1752624,1753616,1753680,1758768,1760817,1761280,1761281,1761496,1761497,1761552,1761553,1761682,1761683,
1761944,1762048,1762072,1762080,1762140,1762304,1762305,1762336,1764120,1764121,1765120,1765152,1765244,1777928,1777992,1782016,
1782017,1782792,1782793,1783046,1785112,1790724,1790736,1794312,1794313,1794824,1795336,1795352,1815330,1815331,1816074,1824280,
1824344,1827592,1827594,1827595,1827656,1827688,1830912,1830913,1831128,1831129,1831184,1831185,1831252,1831253,1831680,1831681,
1831684,1831685,1831712,1831713,1831904,1831928,1831936,1831937,1831968,1831969,1832184,1832240,1832241,1832308,1832456,1832457,
1832472,1832473,1832704,1832708,1832710,1832711,1832720,1832724,1832728,1832732,1832736,1832740,1832752,1832760,1832828,1832958,
1834776,1834777,1834808,1835008,1835076,1837056,1837124,1837184,1837280,1841828,1851524,1876992,1879072,1879140,1893028,1896076,
1909792,1909860,1911841,1916928,1916929,1916996,1916997,1917120,1917128,1917956,1918976,1918977,1919232,1919233,1919392,1919472,
1919520,1922180,1922212,1928620,1936482,1949920,1950720,1950722,1950723,1950724,1950752,1950784,1950788,1950790,1950800,1950816,
1952768,1952769,1952770,1952771,1952800,1952801,1952832,1952848,1952849,1952864,1953314,1955328,1955335,1955364,1957424,1957492,
1957536,1957539,1957624,1959072,1961252,1961253,1961378,1963172,1963173,1966080,1966144,1968128,1968129,1968192,1968193,1968642,
1969154,1970692,1972864,1972867,1972896,1972960,1974400,1974496,1976580,1976581,1976706,1977344,1977345,1977352,1977376,1977420,
1977606,1978500,1978501,1979540,1981569,1981601,1982464,1982465,1982532,1982533,1982592,1982656,1982672,1982688,1982736,1982804,
1982934,1982976,1982980,1983488,1983492,1983504,1983520,1984784,1984785,1985024,1985025,1985040,1985284,1985552,1985553,1985688,
1987220,1990300,1991044,1991308,1991820,1993612,2010128,2010129,2010192,2010193,2010626,2010634,2010658,2015760,2015824,2017808,
2017809,2017872,2017873,2018834,2020912,2020980,2022961,2023424,2023425,2023492,2023493,2023616,2023617,2023648,2023649,2023696,
2023697,2023764,2023765,2023826,2023827,2023894,2023940,2023941,2024064,2024066,2024067,2024072,2024096,2024140,2024198,2024224,
2024448,2024449,2024480,2024481,2024548,2024592,2024664,2024964,2024980,2024996,2025744,2025745,2026240,2026241,2026272,2026273,
2026416,2026800,2027270,2029204,2029236,2031616,2031680,2031682,2031683,2033920,2033923,2033984,2033987,2034016,2035712,2035713,
2035776,2035777,2035842,2035906,2036738,2036806,2037760,2037761,2037824,2037825,2038304,2038305,2038506,2038784,2038785,2038786,
2038787,2038816,2038817,2038848,2038849,2038864,2038865,2038880,2038881,2039298,2039306,2039330,2039374,2040832,2040835,2040840,
2040896,2040904,2043136,2043139,2043148,2043200,2043212,2043248,2044960,2044961,2045090,2045160,2045188,2047008,2047009,2047144,
2047145,2047264,2047265,2047360,2047363,2047394,2047408,2047472,2048000,2048001,2048064,2048065,2048136,2048202,2048203,2048256,
2048258,2048259,2048320,2048324,2048336,2048352,2048514,2048608,2049024,2049026,2049027,2049032,2049040,2049056,2049088,2049096,
2049104,2049120,2050826,2051328,2051331,2051344,2051347,2051360,2051408,2051440,2052224,2052225,2052304,2052305,2052608,2052609,
2052612,2052613,2052738,2052744,2052768,2052808,2052832,2052840,2052900,2053124,2053125,2053136,2053137,2053204,2053205,2053250,
2053266,2053396,2053638,2054656,2054657,2054916,2054917,2055042,2055072,2055074,2055075,2055184,2055185,2055444,2055445,2055680,
2055681,2055688,2055689,2055692,2055693,2055696,2055697,2055704,2055712,2055713,2055728,2055772,2055958,2056192,2056193,2056328,
2056329,2056448,2056449,2056456,2056457,2056524,2056525,2056576,2056578,2056579,2056584,2056588,2056608,2056640,2056648,2056652,
2056654,2056672,2056680,2056688,2056736,2056737,2056872,2057000,2057068,2057198,2057216,2057217,2057224,2057225,2057248,2057249,
2057384,2057472,2057476,2057478,2057479,2057480,2057484,2057488,2057504,2057728,2057736,2057740,2057760,2057768,2057776,2058504,
2058505,2059048,2059049,2059528,2059529,2059560,2060032,2060044,2060047,2060064,2060076,2060080,2060156,2060676,2060677,2061228,
2061452,2061453,2061700,2061716,2061732,2063276,2063277,2064256,2064268,2064271,2064288,2064300,2064304,2064316,2064384,2064448,
2064450,2064451,2069024,2069091,2072064,2072067,2072128,2072131,2072178,2073600,2073603,2073664,2073667,2073672,2073698,2076016,
2077728,2077729,2077792,2077793,2077858,2077922,2078000,2079776,2079777,2079840,2079841,2080768,2080769,2080832,2080833,2080834,
2080835,2081106,2081282,2081346,2081376,2081792,2081794,2081795,2081808,2081824,2081856,2081858,2081859,2081872,2081874,2081875,
2081888,2081890,2084144,2086400,2086403,2086404,2086407,2086418,2086432,2086435,2086464,2086468,2086471,2086486,2086488,2086496,
2086500,2088464,2088465,2088466,2088467,2088496,2088497,2088528,2088529,2088560,2088561,2088632,2088960,2088961,2089024,2089025,
2089096,2089097,2089162,2089163,2089216,2089217,2089218,2089219,2089280,2089281,2089284,2089285,2089312,2089313,2089346,2089376,
2089378,2089379,2089410,2089440,2089442,2089443,2089456,2089504,2089505,2089640,2089706,2089707,2089984,2089985,2089986,2089987,
2089992,2089993,2090016,2090017,2090048,2090049,2090056,2090057,2090064,2090065,2090080,2090081,2090218,2090242,2090246,2090256,
2090258,2090259,2090274,2090310,2090320,2090324,2090352,2090496,2090498,2090499,2090504,2090506,2090507,2090508,2090528,2090530,
2090531,2090536,2090544,2090568,2090572,2090574,2090600,2091816,2091817,2092376,2092377,2092800,2092803,2092810,2092812,2092815,
2092832,2092835,2092842,2092848,2092876,2092908,2093056,2093057,2093124,2093125,2093184,2093185,2093248,2093249,2093280,2093281,
2093600,2093601,2093668,2093669,2094080,2094081,2094084,2094085,2094112,2094113,2094180,2094181,2094208,2094209,2094210,2094211,
2094224,2094225,2094240,2094241,2094272,2094273,2094288,2094289,2094296,2094297,2094304,2094305,2094320,2094321,2094384,2094385,
2094452,2094453,2094582,2094592,2094593,2094596,2094597,2094598,2094599,2094600,2094601,2094604,2094605,2094624,2094625,2094628,
2094629,2094640,2094641,2094708,2094722,2094728,2094730,2094731,2094734,2094754,2094760,2094792,2094798,2094824,2094840,2094848,
2094852,2094854,2094855,2094880,2094884,2094886,2094887,2094896,2094900,2094904,2094972,2095102,2095104,2095105,2095536,2095537,
2095648,2095649,2096128,2096129,2096160,2096161,2096376,2096377,2096432,2096433,2096640,2096641,2096648,2096649,2096672,2096673,
2096688,2096689,2096824,2096825,2096896,2096897,2096900,2096901,2096902,2096903,2096928,2096929,2096932,2096933,2096944,2096945,
2096952,2097020,2097024,2097026,2097027,2097056,2097058,2097059,2097072,2097074,2097075,2097080,2097084,2097088,2097120,2097136,
2097144,2097148,2097150,2097151};
inline const std::vector<std::uint32_t> kGraphs8{
0,297024,841824,873568,2022000,4185720,5050592,5183488,5192304,5373952,5675008,5683824,5691760,6215777,7847544,14291008,
15400960,15400961,15433080,15694961,23795760,28414992,33133664,33200304,33259520,33259521,33260528,33261032,33264736,33264737,33265680,33265681,
33266688,33266696,33266700,33266752,33266760,33266784,33266800,33275392,33275504,33275644,33528944,43126848,43135568,43389136,44171264,44171265,
44468288,45013088,48107715,48369664,48369668,48369728,48373760,48373761,48375872,48666688,48674912,48675320,48675698,50331648,50628672,51173472,
51205216,51221088,52007496,52353648,52560928,54517368,54517500,55644224,57350144,57350208,57358896,57612464,57671680,57671808,57671810,57774144,
57774145,57868816,57870928,57871432,57874456,58154096,58163200,58163201,58164208,58164964,58166476,58179072,58179324,62033936,62033937,62034952,
62034976,62067792,62625352,65706080,65706212,65714273,65737136,65746016,66270288,66754624,66754627,66754752,66754760,66786370,66818112,66818113,
66818376,66818624,66818882,86050816,86116384,90118176,90118178,90118240,90245152,90253344,91425328,93980816,94963856,95486992,95487120,95519744,
95522832,95587360,95618064,95620112,95622160,95622192,95849520,99727376,99727377,99814416,99822608,99822609,99824688,100337808,100337809,100338912,
100341776,100341808,100341904,100341936,100341968,100374560,100374561,100374568,100374624,100374625,100375078,108202568,108747368,110235648,110244352,110244368,
110497856,110497920,110497936,110530888,111175744,111474784,111480832,111480835,115750946,115806496,115808324,116332640,116341344,116593216,118884354,118886432,
119564320,119605256,119614016,119670816,119867392,119867394,119867395,119867584,119932960,119933088,120669192,120689192,120752680,120785432,121330200,121330232,
123090978,123146528,123148292,123148356,124074018,124193056,124196900,124864834,124866592,124866593,124866850,124868614,124930080,124930081,124930338,124979208,
124979209,124979712,124979716,124979728,124979776,124981792,124983304,124983336,124983368,125163616,125163617,125163874,125245592,125261873,125278756,125524008,
125524009,125524512,125524516,125524576,125829120,125829252,125837312,125837444,125837568,126126144,126126276,126134337,126670944,126671076,126679137,126702688,
126702820,126702946,126760994,126812160,126812161,126812292,126812293,126812544,126812545,126816544,126818308,126818372,126821984,126822992,126947392,126947524,
126955585,127008768,127008769,127008900,127008901,127009152,127009168,127012868,127016960,127016961,127017488,127017620,127017984,127018502,127019072,127021336,
127045900,127226960,127227092,127235153,127242832,127242964,127243090,127303680,127303681,127303812,127303813,127304064,127304065,127305792,127305793,127305924,
127305925,127306050,127306051,127309830,127313504,127313984,127313985,127314512,127315016,127318016,127318017,127318112,127537312,127553824,127603268,127799456,
127850592,127850593,127850724,127851120,127851252,127858784,127858785,127859313,127864896,127864897,127865024,127865922,127936514,127992064,127992256,128004096,
128004097,128004112,128004160,128057760,128059392,128059396,128061472,128067584,128067585,128067616,128069664,128069665,128354336,128354337,128354468,128354469,
128354720,128354784,128362528,128362529,128366624,128366625,128366688,128481314,128536864,128536992,128546832,128546833,128546880,128546881,128583712,128583840,
128592608,128600352,128647968,128649732,128651560,128651812,128653324,128780483,128782498,128845856,128845984,128845986,128911360,128911361,128911362,128911363,
128911488,128911504,128911505,128911552,128913440,128913441,128913568,128915456,128915458,128915459,128915472,128915488,128915490,128915504,128915520,128915522,
128915552,128915608,128921184,128932900,128932964,128944992,128974848,128974976,128974978,128974979,128983568,128992256,128992259,128992384,128992388,129007616,
129007617,129008010,129008130,129024256,129024257,129026112,129026113,129028100,129028101,129028386,129030150,129034304,129034305,129038336,129038337,129038352,
129038353,129038400,129038401,129038432,129044480,129044483,129044496,129044608,129044624,129061888,129061892,129061895,129070160,129077312,129077313,129078284,
129086988,129087072,129093953,129103712,129105920,129105921,129106048,129106049,129106448,129106944,129106946,129107104,129107970,129108160,129110016,129110018,
129110019,129110032,129110048,129110080,129110144,129110160,129110176,129110208,129118800,129127428,129127456,129127460,129133584,129133585,129135664,129138952,
129138953,129139456,129139488,129139520,129139616,129139680,129140736,129140737,129140744,129140745,129140876,129140877,129141254,129141264,129141268,129141312,
129142816,129142817,129152556,129157377,129157441,129159457,129171456,129171457,129171864,129171865,129171984,129171985,129172480,129172481,129172496,129172760,
129172992,129172996,129173008,129173056,129173568,129173569,129173976,129174096,129174608,129175552,129175553,129175568,129175569,129175616,129175617,129176024,
129176144,129176576,129176584,129176588,129176592,129176608,129176640,129177600,129177616,129177624,129177664,129177680,129177696,129181208,129186416,129203576,
129206028,129209116,129236860,129340416,129340424,129340427,129340482,129340552,129340556,129340640,129402896,129402897,129403024,129403025,129403914,129403968,
129434640,129434641,129434768,129434769,129436752,129438736,129438738,129438800,129438864,129438896,129438928,129457264,129465457,129466368,129466369,129466776,
129466777,129466896,129466897,129467154,129467155,129467904,129467905,129467968,129468384,129468480,129468481,129468888,129468889,129469008,129469009,129469266,
129469267,129469784,129470464,129470465,129470528,129470529,129470936,129471056,129471314,129472006,129472032,129472096,129472512,129472513,129472536,129472537,
129472576,129472577,129472608,129473548,129473564,129478232,129482240,129482304,129482336,129482492,129685544,129685545,129686054,129697290,129700504,129713668,
129713669,129717256,129717796,129731144,129731145,129735176,129735192,129735240,129981464,129981467,129981592,129981656,129997338,130007040,130007041,130008048,
130008049,130008672,130008673,130009152,130009153,130009680,130009681,130009812,130009813,130013184,130013185,130013248,130013249,130013280,130013281,130013688,
130013808,130013809,130013940,130014720,130014724,130014726,130014727,130014816,130014820,130014840,130014972,130015230,130023032,131021152,131141696,131141828,
131142086,131149889,131150021,131213376,131213508,131213634,131215648,131217414,131273028,131512416,131512548,132261920,132262052,132262176,132262304,132262368,
132319492,132321572,132847652,132852576,132864292,132864356,132987106,133106144,133109792,133109794,133109795,133109796,133109856,133109920,133109924,133109926,
133109984,133117984,133117985,133117986,133117987,133118048,133118049,133118112,133118176,133179586,133232736,133232994,133238784,133238787,133238788,133238912,
133238916,133238919,133238928,133247040,133247041,133247168,133247169,133248066,133264736,133264864,133300640,133302274,133302406,133302464,133304352,133304480,
133310464,133310465,133310466,133310467,133310592,133310593,133310608,133310609,133310656,133310657,133312544,133312545,133312672,133312673,133314562,133314594,
133314626,133335520,133347360,133347361,133347368,133347424,133347500,133347878,133364001,133364065,133365760,133365761,133365892,133365893,133366016,133366017,
133366144,133366145,133366160,133366161,133366208,133366209,133366288,133366420,133366678,133366784,133366788,133367042,133367264,133367302,133367872,133367873,
133368004,133368005,133368400,133368532,133368790,133369856,133369857,133369860,133369861,133369872,133369920,133369921,133370052,133370053,133370112,133370114,
133370115,133370128,133370130,133370144,133370176,133370240,133370256,133370264,133370272,133370288,133370304,133370320,133370336,133370886,133370912,133370916,
133371904,133371908,133371910,133371911,133371920,133371924,133371928,133371968,133371972,133371984,133372000,133374480,133374481,133374976,133374977,133375488,
133375492,133375493,133375552,133375746,133375810,133375840,133376592,133376593,133377104,133378064,133378065,133378328,133378640,133379072,133379080,133379084,
133379104,133379105,133379136,133379590,133379620,133380112,133380113,133380120,133380121,133380176,133380177,133380440,133381134,133397788,133403428,133404940,
133405004,133639248,133641392,133643282,133643346,133651568,133651700,133659761,133662784,133662785,133662916,133662917,133665184,133665185,133665248,133665249,
133666816,133666817,133666822,133666823,133666880,133666881,133666912,133666913,133667044,133667088,133667090,133667091,133667152,133667224,133667288,133667940,
133675632,133724386,133772000,133847074,133847206,133855264,133855265,133855266,133855267,133855328,133855329,133855392,133855393,133855456,133855457,133891040,
133892160,133892161,133892424,133892554,133892555,133894304,133894305,133894688,133894690,133894691,133894816,133894820,133894880,133896192,133896194,133896195,
133896200,133896202,133896203,133896204,133896208,133896256,133896258,133896259,133896264,133896288,133896320,133896328,133896332,133896334,133896335,133896336,
133896344,133896384,133896392,133896400,133896416,133904896,133904899,133904912,133904915,133904960,133904963,133904976,133904992,133905040,133905052,133905104,
133905136,133910816,133910817,133912580,133912581,133912592,133912593,133912644,133912645,133912834,133912850,133912856,133912898,133920784,133920785,133921888,
133921889,133929056,133929057,133929320,133929568,133937768,133946212,134154304,134154305,134154434,134154435,134156448,134156449,134158336,134158338,134158339,
134158352,134158400,134158402,134158403,134158432,134158464,134158466,134158467,134158480,134158482,134158483,134158488,134158528,134158530,134158531,134158544,
134158560,134158562,134167152,134175840,134175843,134175968,134175972,134191200,134191201,134191328,134191329,134191594,134191714,134207584,134207585,134207716,
134207717,134207840,134207841,134207968,134207969,134215776,134215777,134217728,144737280,149491728,149491856,149883984,149920780,150115336,150705736,153158672,
156864576,156864577,157878416,157911041,157913121,157976609,158501896,159091224,159092232,159092296,161059920,161121280,161121281,162071568,162071696,162107408,
162107409,162170896,162170897,162171904,162171912,162171936,162171968,162180656,162434096,162434224,162563088,162563216,162632720,162694160,162694161,162698256,
162698288,162698320,165328912,165328913,166300740,166302128,166312016,166365616,166366244,166377521,166398996,166432012,166698036,166827024,166827028,166835280,
166888880,166892592,166898704,166898705,166900784,166900785,167351296,167351299,167351304,167351362,167351424,167351432,167351436,167351520,167360240,167413776,
167413777,167413904,167413905,167414786,167414848,167414850,167414851,167414976,167414984,167416866,167416867,167417874,167443504,167443505,167443568,167445520,
167445521,167445648,167445649,167447632,167449616,167449618,167449619,167449680,167449744,167449776,167449808,167478272,167478273,167479280,167480400,167480401,
167480664,167481360,167481361,167482368,167482369,167482376,167482377,167482400,167482401,167482432,167482433,167482928,167483408,167483409,167483472,167483473,
167484416,167484424,167484428,167484432,167484440,167484444,167484480,167484488,167484496,167484504,167484512,167484528,167493136,167493200,167493232,167742544,
167742545,167744688,167744689,167746576,167746578,167746579,167746640,167746642,167746643,167746672,172363780,174195200,174198792,174476352,174737984,175261248,
175280648,175280712,175855176,177082432,177099844,177344576,177353296,177370456,177606864,177616088,177632337,178131666,178388992,178388993,178389400,178389652,
178672720,178683904,178683905,178684312,178684564,178684690,178685504,178686016,178950664,179226688,179226689,179230720,179230721,179230816,180016712,181031236,
181276736,181276864,181284928,181284929,181285056,182325443,182497344,182587392,182587396,182587408,182587456,182591488,182591489,182591896,182592148,182593600,
182595600,182595601,182595864,182620428,182878656,182882304,182882305,182882368,182882369,182882500,182888512,182888513,182892544,182892545,182892640,183108288,
183111688,183111816,183128068,183128322,183425089,183433312,183433313,183439952,183440584,183653440,183669832,183932104,184193608,184193736,184209984,184209985,
184549376,184549508,184557568,184844288,184844289,184844420,184854592,185205252,185387073,185399392,185405440,185422852,185438724,185533956,185729552,185947216,
185963088,186024464,186024465,186025472,186225224,186270224,186270225,186271232,186567248,186567249,186567752,186567753,186570776,186570777,186679296,186679297,
186778624,186779664,186781712,186975248,187222025,187254276,187321352,187337224,187744784,187744785,187745792,187745796,187782168,187798040,187860488,187893272,
188188184,188188185,188190296,188402200,188402201,188403272,188730968,188730969,188735000,188735096,189732868,189837376,189861952,189923328,189923329,189923460,
189923461,189923712,189932048,190220352,190220353,190220484,190220610,190224390,190345280,190345281,190451712,190451714,190451715,190451720,190451776,190451840,
190451848,190451872,190451904,190459913,190466112,190466113,190466244,190466370,190468100,190468101,190468352,190468384,190468416,190468528,190470150,190478416,
190503244,190517828,190534988,190550860,190765152,190765153,190765284,190780480,190780482,190780616,190812740,190812994,190907396,190918672,190973968,190974226,
190982160,190982161,191204420,191269924,191302676,191335692,191395874,191434754,191461456,191498243,191498272,191498368,191498376,191498400,191498432,191514912,
191515056,191562498,191562528,191564292,191566372,191567884,191826064,191826946,191827010,191827011,191827136,191827144,191829026,191829027,191830032,191830034,
191830035,191830064,191859552,191906816,191906819,191906944,191906948,191938816,191938817,191940672,191940673,191942946,191944710,191976448,191976452,191992320,
191992324,192021640,192053760,192055304,192055305,192056392,192056902,192057352,192057862,192058408,192064024,192086544,192086545,192087552,192087556,192088656,
192089160,192091144,192091160,192092184,192095768,192318474,192318664,192371824,192381456,192381457,192382464,192382465,192383568,192383569,192384072,192384073,
192387096,192387097,192392792,192533056,192564234,192564424,192565808,192580296,192582184,192600073,192600104,192600105,192612040,192614936,192631816,192631817,
192632324,192632356,192632368,192632388,192647688,192647689,192647752,192649800,192649816,192896024,192896027,192896152,192928368,192928369,192928840,192928841,
192929376,192929380,193507392,194671696,194942016,194942018,194942152,195080208,195167248,195167380,195175440,195175441,195596290,195622992,195654736,195661888,
195661889,195691520,195691522,195691523,195691648,195691656,195691680,195691712,195694608,195694736,195700400,195708336,195718160,195720240,195723264,195723265,
195723776,195723780,195724034,195724208,195725312,195725320,195725328,195725578,195725830,195726400,195726408,195726918,195727360,195727361,195727368,195727392,
195727393,195727424,195727425,195727878,195728424,195734040,195925058,195987472,195987600,195988482,195988544,195988546,195988547,195988672,195988680,195990562,
195990563,195991570,196017200,196017201,196017264,196023312,196023314,196023315,196023376,196146256,196251664,196251665,196252672,196252680,196252688,196252696,
196252704,196252736,196252752,196261392,196261424,196261456,196285520,196514832,196514834,196514835,196514896,196514960,196514992,196515024,196773576,196793352,
196793353,196793904,196843080,196843096,198849602,198873408,198881860,198882114,199370160,199832642,199856192,199856193,199856448,199856450,199856451,199856576,
199856584,199864384,199864385,199864896,199864900,199865154,199895056,199895184,199896066,199896130,199898146,199899154,199919936,199920064,199920072,199921697,
199921955,199931905,199931913,199931936,199931937,199931944,199931969,199932000,199932202,199932454,199951680,199954704,199954706,199954707,199955460,199955524,
199987468,200194225,200217776,200225968,200225969,200227922,200251728,200252484,200324162,200422418,200443200,200443328,200443336,200445968,200445969,200446224,
200446226,200446227,200446352,200446384,200446416,200446976,200446980,200446982,200446983,200446984,200447008,200447040,200447044,200454160,200454161,200455168,
200455169,200455176,200455177,200455200,200455201,200455232,200455233,200456272,200479824,200479956,200488016,200488017,200709296,200717488,200717489,200719442,
200774992,200839362,200934592,200937488,200937616,200937618,200937619,200963248,200963249,200965202,200966848,200966978,200967106,200970240,200970241,200970242,
200970243,200970248,200970304,200970305,200970368,200970369,200970376,200970377,200970400,200970401,200970432,200970433,200970698,200970754,200970758,200970818,
200970886,200970928,200972354,200980067,200987056,200987057,200988002,200988752,200988753,200989010,200989766,200996944,200996945,200997952,200997953,200997960,
200997961,201004096,201004098,201004099,201004112,201004224,201004232,201004240,201020496,201020497,201020752,201020754,201020755,201020880,201028688,201028689,
201035840,201035841,201036104,201036352,201036610,201036624,201036752,201036864,201036865,201036872,201036873,201037376,201037380,201037382,201037383,201037384,
201045576,201045577,201234642,201266256,201266384,201266386,201266387,201299008,201299009,201299010,201299011,201299136,201299137,201299144,201299145,201326592,
201335296,201588736,201916936,203048488,204426808,204523048,206569472,206569600,206578176,206578368,206598144,206598145,206598208,206700808,206962688,206962689,
206962816,206963744,206966784,206966786,206966848,206975536,207001612,207032852,207685640,208749576,208769576,208833064,208865816,209410584,209410616,210634754,
210636832,210702868,211088449,211452425,211845632,211944456,212174400,212387849,212420100,212420160,212435464,212487176,212488752,212503048,212505128,212781617,
212911680,213026312,213029400,213568024,213568025,213569032,213569096,213603864,213603928,213900888,213918144,214040836,214511617,214511680,214841378,214896928,
214898756,215093252,215101720,215109908,215126284,215265472,215265473,215352512,215388418,215388419,215511104,215511105,215511232,215511233,215584833,215613568,
215613569,215614144,215617536,215617538,215617539,215617544,215617600,215617664,215617672,215617696,215617728,215626240,215626243,215626272,215626304,215626416,
215633924,215633925,215634178,215643232,215644176,215644177,215661132,215683400,215716684,215879680,215879682,215879683,215879744,215879808,215879810,215879811,
215879840,215879872,215879874,215905377,215914499,215914560,215914568,215914696,215923264,215923267,215945280,215945281,215945361,215945408,215946306,215962693,
215978312,215978313,215978816,215978818,215978819,216006656,216006784,216014848,216014849,216016898,216041472,216041476,216072448,216072592,216081408,216081409,
216084496,216089860,216105732,216137728,216137729,216137860,216137984,216138784,216138916,216139776,216139780,216141824,216141828,216141856,216141888,216146976,
216146977,216148500,216149004,216155428,216204556,216303808,216367552,216370244,216371200,216371201,216371264,216371265,216371458,216371522,216434721,216468500,
216501516,216680480,216680612,216728064,216728065,216730116,216730632,216730696,216731656,216731657,216732160,216732224,216737320,216995992,217009217,217011297,
217029156,217088514,217088704,217104832,217108480,217108481,217108484,217108544,217108545,217108738,217108802,217158160,217187336,217187464,217203713,217205824,
217206801,217221128,217221129,217221648,217221696,217223684,217223712,217253392,217253440,217256968,217256984,217257032,217420811,217437249,217484296,217484298,
217484424,217484488,217519256,217535569,217682440,217682443,217682568,217698880,217698881,217730058,217730248,217731632,217745931,217765928,217765929,217766400,
217766404,217766407,217766448,217766464,217766468,217777672,217777674,217777800,217777864,217780760,217780888,217794052,217794053,217794112,217794113,217797640,
217797641,217797704,217797705,217798150,217798176,217798180,217798240,217809416,217809417,217811529,217813512,217813513,217813544,217813576,217813577,217814632,
217815560,217815576,217815624,218076776,218077722,218077912,218094600,218094601,218094664,218094665,218095168,218095172,218095174,218095175,218095216,218103808,
218103940,218112000,218400768,218408992,218662944,218693632,218693633,218702337,218957824,218957826,218975232,218975296,219023392,219152384,219152512,219169796,
219218448,219218944,219227664,219227712,219481104,219481232,219513360,219513361,219516928,219516929,219516992,219522625,219693184,219693185,219697154,219728388,
219742912,219775496,219775497,220037825,220057600,220057601,220057664,220057665,220059672,220059673,220059712,220059713,220136963,220200960,220201088,220218400,
220228608,220228672,220235776,220266496,220266497,220268544,220268560,220299529,220300064,220332032,220332033,220333088,220334080,220334112,220336128,220336160,
220336192,220564488,220626032,220629024,220629025,220633088,220633152,220641904,220809776,220923432,221207552,221207608,221207616,221334552,221349384,221447704,
221744664,221744696,221890088,221890089,221892104,221892168,222285368,222285369,222289408,222289464,222289472,222289528,222289660,223164450,223283488,223287332,
223356930,223412224,223412225,223412356,223412357,223412480,223412608,223412624,223412672,223420944,223421440,223421441,223424512,223424513,223424528,223424576,
223479812,223544084,223711264,223711265,223711396,223713286,223721536,223721537,223808532,223901730,223967248,223967249,224004128,224004256,224012832,224020768,
224068384,224070148,224071976,224072228,224073740,224202914,224254048,224254049,224254180,224266272,224266400,224266402,224331776,224331777,224331778,224331779,
224331904,224331920,224331921,224331968,224333856,224333857,224333984,224335872,224335874,224335875,224335888,224335890,224335904,224335906,224335920,224335936,
224335938,224335968,224336024,224353316,224353380,224365408,224461216,224462848,224462852,224462880,224471040,224471041,224471072,224473120,224488736,224488800,
224528416,224528548,224987168,224987296,224995872,224996000,224996064,225003552,225003553,225003810,225011744,225011745,225015840,225015841,225015904,225118504,
225122304,225122352,225122368,225131056,225249312,225249440,225249442,225380384,225380385,225380512,225384480,225384482,225384544,225384576,225384624,225384640,
225443840,225443968,225443970,225443971,225471488,225471491,225471552,225471616,225471680,225478656,225478659,225478784,225478848,225487536,225495072,225495073,
225495296,225495299,225495330,225495360,225495424,225495472,225495488,225528832,225528836,225528896,225542144,225542145,225542408,225542409,225542914,225543088,
225543200,225543201,225543464,225543716,225544200,225544201,225544720,225545216,225545228,225545280,225545420,225546240,225546241,225546304,225546305,225546380,
225553920,225553932,225553984,225570624,225570672,225574912,225574913,225575040,225575041,225575858,225575968,225576614,225579008,225579010,225579011,225579072,
225602608,225610272,225613836,225640976,225641988,225642016,225643056,225643528,225644054,225645608,225646616,225675052,225805344,225805345,225807360,225807362,
225807363,225807424,225807426,225807427,225807488,225807500,225807552,225816304,225836080,225836081,225836144,225876016,225926256,225935360,225935361,225937968,
225937969,225938744,225938976,225939040,225939456,225939457,225939520,225939521,225942540,225951232,225951296,225951484,226089000,226089001,226167448,226184740,
226200104,226200105,226204200,227083268,227380292,227478548,227511564,227574160,227574784,227574788,227582976,227582977,227586064,227970068,228098048,228098049,
228098176,228098177,228098442,228098562,228102146,228106945,228110345,228128784,228128785,228128848,228160529,228160592,228167681,228167697,228167744,228167745,
228167960,228168208,228168212,228185356,228197376,228197378,228197379,228197504,228197512,228197536,228197568,228198416,228198544,228200464,228200592,228206256,
228214192,228224016,228224017,228226096,228229636,228229637,228229888,228229890,228229891,228229952,228231434,228231448,228231700,228232204,228248844,228250924,
228263444,228296460,228429841,228429969,228430914,228493328,228493329,228493456,228493457,228494336,228494338,228494339,228494344,228494400,228494402,228494472,
228494476,228494536,228494560,228497426,228525072,228525073,228525200,228525201,228529168,228529170,228529200,228529232,228562232,228562484,228563980,228563996,
228632592,228632593,228656144,228664336,228664337,228953108,229180418,229180552,229180576,229181456,229181584,229207056,229207057,229209136,229212672,229214208,
229214209,229214216,229214474,229214726,229214736,229215240,229215304,229216264,229216288,229216289,229216774,229222936,229231685,229247120,229279776,229279777,
229280808,229476496,229476497,229477384,229477512,229477576,229477600,229480466,229575696,229575698,229575699,229575728,229575824,229575888,229671936,229671938,
229671939,229672064,229672072,229672096,229672128,229680816,229698576,229698577,229700656,229704720,229704848,229737472,229737473,229737488,229737489,229737752,
229738000,229740560,229740561,229770256,229770384,229803008,229803009,229804048,229804049,229805056,229805064,229805072,229805080,229805088,229805104,229805120,
229805590,229806096,229806097,229807112,229807136,229821744,229835792,229835793,229837840,229839888,229839920,229839952,229999632,229999633,229999760,229999761,
230003730,230067216,230067218,230067219,230067248,230067344,230067376,230067408,230069296,230262280,230262282,230262408,230262472,230282248,230282249,230345736,
230345737,230346288,230393352,230393353,230394392,230395400,230395416,230395464,230396440,230397448,230397480,230397496,230397512,231837972,231901460,231910668,
231933204,232232244,232337425,232337553,232338498,232361985,232361989,232362048,232362049,232362180,232362181,232362240,232362243,232362248,232362304,232362368,
232362376,232362380,232362432,232362440,232362464,232370240,232370241,232370752,232370756,232370757,232371010,232371184,232379748,232391712,232392848,232399904,
232399905,232401040,232401041,232401922,232401986,232405010,232429572,232429636,232438058,232457220,232457221,232457472,232457474,232457475,232457480,232457536,
232457612,232459332,232460560,232461348,232462356,232469516,232469517,232478004,232489732,232489733,232492364,232493324,232493325,232495372,232495388,232633441,
232691760,232691888,232731696,232731697,232731824,232731825,232733714,232733778,232754244,232754245,232757268,232757269,232757520,232757522,232757523,232757584,
232758276,232758284,232758340,232758372,232766476,232766477,232775028,232827312,232883492,232893708,233278772,233375888,233384080,233384081,233388050,233408992,
233420832,233420833,233420840,233420896,233421098,233421350,233478240,233478372,233486433,233505824,233505825,233505956,233505957,233506082,233506083,233507088,
233507840,233507846,233507847,233507848,233507876,233507888,233507904,233508020,233509296,233514016,233514017,233516032,233516033,233516040,233516041,233516080,
233516081,233516096,233516097,233518176,233520142,233875472,233875473,233875600,233875601,233876482,233876546,233879570,233899024,233899152,233907216,233907217,
233907344,233907345,233911314,233931152,233931153,233931776,233931777,233931780,233931781,233932032,233932034,233932035,233932040,233932096,233932160,233932168,
233932172,233932224,233932232,233932256,233933892,233934864,233934865,233934996,233934997,233935120,233935122,233935123,233935248,233935280,233935312,233935878,
233939968,233939969,233940976,233943056,233943057,233944064,233944065,233944072,233944073,233944096,233944097,233944112,233944128,233944129,233945104,233945105,
233945168,233952564,233974802,233998608,233998736,233998768,233998800,233999364,233999392,233999396,233999428,234001444,234007584,234007585,234010640,234010641,
234010672,234016052,234030096,234030097,234030228,234030229,234030352,234030480,234030512,234030544,234032144,234032148,234034192,234034196,234034224,234034482,
234038288,234038289,234040336,234040337,234042384,234042385,234042416,234042417,234042448,234065164,234065180,234067212,234206256,234206257,234206384,234206385,
234208274,234208338,234261552,234261680,234269744,234269745,234269872,234269873,234273842,234327060,234327061,234327312,234327314,234327315,234327376,234329392,
234331156,234331188,234331220,234356736,234356864,234356866,234356867,234384384,234384387,234384448,234384451,234384512,234384515,234384576,234384579,234391552,
234391555,234391680,234391683,234391688,234391744,234400256,234400259,234400320,234400323,234400384,234400387,234400448,234400451,234423298,234423426,234426514,
234452016,234452017,234452144,234452145,234454034,234454098,234455040,234455041,234455168,234455169,234455304,234455305,234455434,234455435,234455552,234455554,
234455555,234455680,234455684,234455685,234455744,234455810,234455874,234455938,234456002,234457666,234458178,234458179,234458184,234459136,234459137,234459138,
234459139,234459144,234459168,234459169,234459200,234459201,234459264,234459265,234459272,234459273,234459296,234459297,234459328,234459329,234459562,234459594,
234459650,234459654,234459682,234459714,234459782,234459824,234461186,234461194,234461202,234461250,234461326,234466890,234469914,234474564,234474565,234475952,
234475953,234476640,234476641,234477584,234477585,234477588,234477589,234477842,234477906,234478598,234478662,234483712,234483713,234483776,234483777,234484592,
234484593,234484832,234484833,234485096,234485097,234485776,234485777,234486784,234486785,234486792,234486793,234486796,234486797,234486848,234486849,234486856,
234486857,234486880,234486881,234486896,234487808,234487809,234487936,234487937,234487938,234487939,234488864,234488994,234488995,234490000,234491904,234491906,
234491907,234491968,234492032,234492034,234492035,234492096,234492098,234515504,234515505,234515632,234515633,234519552,234519555,234519602,234519616,234519619,
234522656,234522657,234522784,234522785,234523050,234523170,234526720,234526723,234526728,234526732,234526754,234526768,234526784,234526787,234526848,234526856,
234526860,234526863,234526896,234526912,234526920,234535424,234535427,234535472,234535475,234535488,234535491,234535600,234535664,234554368,234554369,234554370,
234554371,234554496,234554497,234554504,234554505,234554528,234554529,234554560,234554561,234555056,234555408,234555409,234555536,234555537,234556416,234556418,
234556419,234556424,234556432,234556434,234556435,234556440,234556480,234556482,234556483,234556544,234556552,234556556,234556560,234556568,234556608,234556616,
234556624,234556640,234557456,234557457,234557584,234557585,234558466,234558496,234558498,234558499,234558530,234558606,234558624,234558632,234558688,234559504,
234559506,234559507,234559536,234559568,234559632,234559664,234559696,234571184,234571185,234572816,234572817,234572820,234572821,234573072,234573074,234573075,
234573136,234573200,234573264,234573296,234574896,234574897,234575028,234575029,234575154,234576918,234581008,234581009,234583088,234583089,234585104,234585105,
234585136,234585137,234585168,234585169,234585200,234586112,234586113,234586376,234586377,234586624,234586625,234586880,234586881,234586882,234586883,234586912,
234586944,234586945,234587008,234587009,234587040,234587056,234587057,234587072,234587073,234587104,234587168,234587169,234587432,234587433,234587688,234587820,
234587948,234588078,234588160,234588161,234588168,234588169,234588672,234588676,234588678,234588679,234588688,234588689,234588736,234588930,234588944,234588946,
234588947,234588994,234589008,234589072,234589136,234589168,234589184,234589185,234589192,234589193,234589196,234589197,234589248,234589249,234589256,234589257,
234589696,234589700,234589702,234589703,234589704,234589708,234589710,234589760,234589764,234589766,234589767,234589768,234589792,234590208,234590209,234590216,
234590217,234590240,234590241,234590272,234590273,234590536,234590537,234590720,234590724,234590725,234590726,234590727,234590752,234590756,234590784,234590978,
234591010,234591024,234591042,234591152,234591216,234591328,234591329,234591592,234592256,234592257,234592264,234592265,234592268,234592272,234592273,234592280,
234592281,234592288,234592289,234592296,234592304,234592305,234592320,234592321,234592328,234592352,234592353,234592774,234592784,234592788,234592790,234592791,
234592806,234592816,234592820,234592838,234592848,234593280,234593288,234593292,234593294,234593295,234593312,234593320,234593324,234593328,234593336,234593344,
234593352,234593356,234593376,234593384,234593392,234595880,234595881,234597896,234597897,234597960,234597961,234600040,234600984,234601016,234601984,234601996,
234601999,234602016,234602028,234602032,234602044,234602048,234602060,234602080,234602096,234602236,234605836,234605837,234618624,234618672,234618684,234618688,
234618736,234618748,234720322,234720323,234722530,234723346,234723474,234749040,234749041,234749168,234749169,234788912,234789040,234789043,234818576,234818578,
234818579,234818704,234818706,234818707,234818768,234820786,234849312,234849313,234850448,234850449,234851328,234851329,234851330,234851331,234851336,234851337,
234851392,234851393,234851394,234851395,234851456,234851457,234851464,234851465,234851468,234851469,234851520,234851521,234851528,234851529,234851552,234851553,
234852080,234853472,234853473,234854416,234854417,234854418,234854419,234854448,234854449,234854544,234854545,234854576,234854577,234854608,234854609,234855424,
234855426,234855427,234855432,234855434,234855435,234855436,234855456,234855458,234855459,234855464,234855472,234855474,234855475,234855480,234855488,234855490,
234855491,234855496,234855520,234855522,234855523,234855536,234855560,234855564,234855566,234855592,234855596,234855608,234855624,234855628,234855656,234864176,
234864179,234864240,234868208,234868209,234871856,234871857,234871860,234871861,234871920,234871921,234872052,234872114,234880048,234880049,234880112,234880113,
234881024,234889728,234906432,235143168,235151872,235159552,235159553,235159684,235169856,235171840,235171841,235171904,235274504,235753984,236061192,236340232,
236340233,236902920,236995072,237109768,237292036,237292096,237390856,237392432,237587016,237951592,237979176,237979177,237981256,238076424,238076425,238113304,
238175752,238178840,238503448,238503449,238505560,238507544,240152640,240254976,240254977,240267788,240414784,240414785,240414912,240414913,240521216,240521218,
240521280,240529920,240529923,240529984,240535616,240535617,240535748,240535874,240539654,240564812,240572748,240620364,241584160,241584161,241584292,241633796,
242178596,242307584,242307588,242307600,242370568,242370569,242371136,242373152,242418184,242418185,242420296,242422280,242422344,242669608,242669609,242681354,
242684568,242697224,242697225,242697728,242697732,242697733,242697792,242701320,242701352,242701353,242701384,242701830,242701856,242701860,242701920,242702360,
242702361,242708056,242960968,242960969,242965000,242965016,242965064,242965096,243227160,243227288,243227352,243260008,243260009,243666948,243675416,243683604,
243699980,244187840,244191240,244191368,244207620,244207621,244207874,244207904,244257348,244453376,244453392,244462080,244462096,244715584,244715648,244715664,
244748616,244758092,245273160,245273288,245366784,245366912,245375488,245375491,245375616,245375632,245391360,245391361,245392146,245392384,245392385,245392650,
245393472,245399816,245498368,245498888,245501960,245628928,245629056,245629058,245629059,245661696,245661697,245661824,245661825,245661960,245662090,245662400,
245678528,245682176,245682177,245682180,245682240,245682241,245682434,245682498,245688384,245688385,245692416,245692417,245692432,245692433,245692512,245698560,
245698563,245698576,245707283,245715219,245732364,245741068,245749004,245761032,245761160,245777409,245777696,245777824,245779520,245780497,245795348,245797380,
245826840,245860108,245908160,245994056,246022664,246022792,246039040,246039041,246040584,246041094,246041152,246042632,246042633,246043136,246043140,246043168,
246043200,246049304,246059560,246272576,246272577,246302242,246303250,246303754,246303944,246305328,246319816,246321704,246336065,246339593,246339624,246339657,
246340134,246351560,246354456,246354584,246371844,246371876,246371908,246564416,246583816,246583832,246583880,246843080,246845976,246846104,246859328,246859329,
246862856,246862857,246862920,246862921,246863360,246863364,246863366,246863367,246863392,246863396,246863408,246863424,246863428,246863456,247088840,247091736,
247091864,247124488,247124489,247124552,247124553,247158344,247158360,247420504,247420632,247453256,247453257,247607564,247861252,247869444,247869445,247869696,
247869698,247869699,247869728,247869760,247904588,247927108,248664388,248689484,248909888,248910016,248918080,248918081,248918208,248919106,248935493,248942912,
248943172,248951364,248951365,248951616,248951618,248951619,248959300,248959301,249172032,249172160,249180736,249180739,249180864,249188416,249188417,249188674,
249188932,249196608,249196609,249196872,249196873,249197376,249197378,249197379,249434176,249434304,249434306,249434307,249442880,249442883,249443008,249443011,
249450560,249450561,249450688,249450689,249450818,249450946,249458752,249458753,249458880,249458881,249573378,249577920,249586112,249589760,249589761,249589764,
249589765,249589824,249590018,249590082,249638976,249692160,249692161,249692292,249692293,249692416,249692544,249692552,249692576,249692608,249692672,249692676,
249696256,249696260,249696264,249696288,249696320,249696452,249700352,249700353,249700864,249700865,249700868,249700869,249701120,249701152,249701184,249701280,
249701296,249701408,249702400,249702401,249702408,249702918,249704448,249704449,249704456,249704457,249704480,249704481,249704512,249704744,249708804,249708805,
249712900,249712932,249712964,249721652,249762060,249770780,249835522,249901120,249901121,249902146,249918529,249918533,249925952,249926088,249934400,249934401,
249934404,249934405,249942340,249942341,249954304,249954305,249954432,249954433,249954560,249954562,249954563,249954688,249954690,249954720,249954752,249956354,
249956486,249956544,249958400,249958402,249958403,249958404,249958432,249958464,249958528,249958532,249958534,249958560,249958592,249962496,249962497,249963552,
249963553,249964198,249964544,249964545,249964546,249964547,249964672,249964673,249964688,249964689,249965074,249965570,249965578,249965634,249965710,249966592,
249966593,249966624,249966625,249966656,249966657,249968658,249968674,249973824,249973828,249982017,249982272,249983281,249985045,249993220,249993228,249993284,
250021184,250021444,250023940,250023941,250024192,250024194,250024208,250024224,250024256,250024468,250024996,250026052,250029888,250032408,250032409,250032660,
250032661,250033164,250033165,250033700,250034520,250040597,250041604,250041636,250041668,250042708,250056972,250056973,250057476,250057508,250057540,250059084,
250066796,250163936,250171872,250180448,250180576,250247208,250247718,250281984,250281985,250282880,250282894,250282952,250284360,250284612,250286088,250286089,
250286592,250286600,250286656,250286664,250286796,250288140,250294792,250294793,250294856,250294857,250296844,250303268,250313500,250378466,250426080,250434016,
250501154,250501286,250545120,250546240,250546241,250546504,250546634,250546756,250546886,250548768,250548896,250548900,250548960,250550272,250550274,250550275,
250550284,250550288,250550290,250550291,250550344,250550368,250550412,250550414,250550472,250558976,250558979,250558992,250558995,250559072,250559132,250560960,
250560961,250564608,250564609,250564672,250564673,250564804,250564805,250564896,250564897,250564992,250565040,250565041,250565056,250565728,250565729,250565860,
250565986,250566724,250566978,250567750,250575872,250575873,250575944,250575945,250575984,250576454,250583400,250662976,250662977,250663234,250663368,250671680,
250671681,250741440,250744840,250744968,250757568,250758600,250758720,250758724,250761216,250761217,250761220,250761232,250761233,250761280,250761281,250761364,
250761474,250761490,250761538,250761624,250761748,250762246,250766912,250766913,250770440,250770441,250770504,250770950,250778116,250778124,250778144,250794252,
250794756,250794788,250794820,250810944,250811464,250925120,250925121,250925248,250925249,250925378,250925506,251020481,251023377,251036352,251036353,251039752,
251039753,251039880,251039881,251040256,251040258,251040259,251040260,251040288,251040320,251040322,251040323,251040384,251040388,251040390,251040391,251040416,
251040420,251040432,251040448,251040452,251040480,251056132,251056133,251056384,251056386,251056387,251056416,251056448,251056544,251056608,251057764,251058240,
251058241,251058244,251058498,251058648,251073608,251073736,251089985,251090000,251090001,251090132,251090392,251090516,251106884,251106892,251123020,251123524,
251282112,251282113,251285512,251285513,251285640,251285641,251286016,251286018,251286019,251286020,251286048,251286080,251286082,251286083,251286144,251286148,
251286150,251286151,251286176,251286180,251286192,251286208,251286212,251286240,251320896,251320900,251320904,251320908,251335240,251335368,251351616,251351617,
251352024,251352136,251352137,251360840,251360841,251368008,251368009,251583040,251583043,251583044,251583168,251583172,251583175,251614280,251614281,251614408,
251614409,251614786,251614918,251630152,251630153,251630280,251630281,251646528,251646529,251658240,251658372,251666432,251674884,251920384,251920512,251928576,
251928577,251928704,251928705,251930626,251932674,251955204,251986176,252003588,252019460,252051712,252053508,252055556,252062228,252062732,252118284,252248576,
252248584,252248716,252256776,252256777,252475426,252526592,252526593,252526724,252526725,252526976,252526977,252527040,252527041,252530688,252530689,252530752,
252530753,252530884,252530976,252537928,252538880,252538881,252538944,252538945,252540000,252540952,252577824,252594464,252642080,252643844,252645672,252645924,
252647436,252723200,252723201,252723458,252723648,252732424,252735488,252735489,252735504,252735552,252756740,252838404,252847628,252855564,252871436,253002240,
253002242,253002243,253002368,253002372,253002432,253005826,253010625,253014025,253018368,253018369,253020482,253022212,253022213,253022240,253022241,253022466,
253022498,253024262,253032512,253032513,253054993,253064257,253064272,253071876,253100032,253100033,253100160,253101056,253101058,253101064,253101192,253101216,
253102082,253104128,253104130,253104144,253104160,253104192,253109257,253109760,253109763,253109824,253117728,253120816,253133316,253133317,253133568,253133570,
253133571,253133600,253133632,253135364,253135380,253137192,253137412,253137444,253137476,253145912,253154604,253155612,253167108,253169944,253170196,253170700,
253187356,253203228,253248000,253248002,253248003,253248128,253248132,253248192,253256385,253317129,253317639,253325889,253334024,253334088,253362696,253362824,
253379330,253379331,253380136,253380394,253380616,253380617,253381120,253381124,253381126,253381136,253383172,253388328,253388329,253513858,253513922,253545027,
253579456,253579457,253596168,253596171,253596296,253612545,253612608,253612609,253612866,253614153,253624963,253640832,253640833,253642944,253643282,253643283,
253643786,253643976,253644802,253644803,253644928,253644960,253644992,253645360,253646850,253646914,253652547,253680132,253680196,253691400,253691402,253691403,
253691528,253691592,253694467,253694488,253694616,253707780,253707781,253708098,253708099,253711908,253755392,253755520,253764096,253764099,253764224,253764256,
253764288,253771776,253771777,253772034,253779968,253779969,253781024,253782016,253782017,253782048,253784064,253784065,253784096,253784128,253790208,253790216,
253790348,253798912,253798924,253798976,253815552,253815600,253815616,253820928,253820929,253821192,253821440,253822984,253831744,253837569,253838341,253847392,
253854476,253886464,253886465,253886728,253886976,253887520,253888512,253888520,253888544,253889030,253890560,253890568,253890592,253890624,253899296,254052352,
254052355,254052360,254052480,254052488,254052544,254061232,254068768,254068769,254069026,254076960,254076961,254081056,254081057,254081120,254083072,254083073,
254083200,254083201,254084098,254084256,254085120,254085122,254085123,254085136,254085312,254087170,254093843,254100481,254100768,254100896,254100960,254101521,
254103569,254110721,254110736,254110737,254110785,254112801,254112816,254116104,254116105,254116352,254116353,254116610,254116640,254116832,254117160,254118404,
254118464,254118924,254119944,254119945,254120076,254120454,254127628,254134593,254136577,254136609,254136641,254149664,254150656,254150658,254150659,254150688,
254150784,254150800,254150816,254150848,254152736,254166049,254168064,254168096,254168100,254168128,254176289,254176304,254183720,254187532,254215684,254216724,
254217228,254248748,254363656,254363657,254364160,254364164,254364166,254364167,254364176,254364224,254429728,254476808,254476809,254477864,254480904,254480968,
254626322,254626323,254662696,254662697,254663206,254741144,254757896,254757897,254758400,254758406,254758407,254758436,254758448,254758456,254758464,254758588,
254759472,254759473,254766648,254766649,254837256,254837384,254853632,254853633,254854696,254855176,254855177,254857224,254857225,254857734,254862888,254862889,
254886920,254886921,254887424,254887428,254887440,254887488,254895640,254895641,254902792,254902793,254903816,254906904,254906920,254952456,254952457,254952960,
254952964,254952992,254953024,254954504,254956080,254970376,254970408,254972456,255002120,255002136,255003160,255005208,255117842,255118346,255149587,255165960,
255165962,255165963,255166088,255166152,255181832,255181833,255182336,255182337,255182340,255182341,255182400,255182401,255183944,255183945,255185928,255185929,
255185960,255185961,255185992,255185993,255186438,255186968,255186969,255194680,255216664,255216792,255232536,255232664,255249448,255249449,255249924,255249952,
255249956,255249988,255250016,255252504,255252505,255264280,255264408,255282201,255284249,255379976,255379979,255380104,255380168,255411722,255443464,255443465,
255447560,255447561,255447592,255447593,255447624,255447625,255477288,255478424,255511080,255511081,255515144,255515192,255515208,255542792,255542793,255543832,
255543833,255544840,255544856,255544904,255545880,255545881,255546920,255547928,255547960,255547992,255708746,255708747,255711770,255777336,255777464,255807000,
255807002,255807003,255807128,255807192,255837736,255837737,255839752,255839753,255839816,255839817,255841896,255841897,255842840,255842841,255842872,255842873,
255843848,255843880,255843896,255843912,255843944,255843960,256256288,256313604,256315684,256841764,256846688,256858404,256858468,256928066,256929824,256930082,
256931846,256978953,256979008,256987396,257034244,257041184,257044776,257050884,257052964,257098500,257099020,257102092,257110812,257173698,257226848,257227106,
257233031,257241152,257241153,257241280,257241281,257242178,257274720,257294752,257296384,257296386,257296387,257296388,257296512,257296516,257296518,257296528,
257296576,257298464,257298592,257304576,257304577,257304578,257304579,257304704,257304705,257304720,257304721,257304768,257306656,257306657,257306784,257308674,
257308690,257308706,257308738,257338208,257360128,257360129,257360900,257360901,257361152,257361154,257361155,257361216,257363972,257363973,257364224,257364226,
257364227,257364240,257364256,257364288,257365028,257366020,257366036,257366084,257369604,257369605,257369858,257369920,257369922,257369923,257369952,257372440,
257372441,257373196,257373197,257373732,257374552,257381668,257382740,257397540,257399052,257399068,257399116,257407772,257587232,257587233,257587240,257587296,
257587750,257643300,257644876,257841186,257841318,257849376,257849377,257849378,257849379,257849440,257849441,257849504,257849505,257849568,257886786,257886787,
257888416,257888800,257888802,257888803,257888928,257888932,257888992,257890312,257890314,257890315,257890368,257890370,257890376,257890440,257890456,257890504,
257898569,257904928,257904929,257906692,257906693,257906756,257906757,257906946,257906962,257906968,257907008,257907010,257907011,257907024,257940324,257976352,
257976610,258015648,258017280,258017284,258017288,258024224,258024352,258024416,258025472,258025473,258025480,258025481,258025990,258027552,258033924,258042177,
258044193,258082848,258082980,258091040,258091041,258091556,258099492,258148620,258222242,258277792,258279424,258279426,258279427,258279428,258279552,258279556,
258279558,258279559,258279568,258279616,258287616,258287617,258287618,258287619,258287744,258287745,258287760,258287761,258287808,258287809,258289696,258289697,
258289824,258289825,258291714,258291730,258291746,258291778,258321248,258341217,258344992,258345120,258353184,258353185,258353312,258353313,258357282,258410500,
258410501,258410752,258410754,258410755,258410768,258410784,258410816,258411556,258412832,258414596,258414628,258414660,258420260,258423096,258428196,258431284,
258444068,258447660,258550496,258567008,258567136,258570272,258570273,258570280,258570336,258570790,258672936,258676736,258676784,258676800,258685440,258685455,
258685484,258685488,258685504,258689828,258702128,258702192,258812640,258824226,258824358,258832416,258832417,258832418,258832419,258832480,258832481,258832544,
258832545,258832608,258832609,258934816,258934817,258934944,258935080,258935210,258935328,258935330,258935331,258935456,258935460,258935520,258938912,258938914,
258938920,258938976,258939008,258939023,258939048,258939056,258939072,258947616,258947619,258947680,258947760,258947824,258951456,258951457,258955300,258955301,
258955554,258998272,258998400,258998402,258998403,259006976,259006979,259007104,259007107,259007168,259016706,259016838,259022848,259022849,259022976,259022977,
259023904,259023905,259024298,259024550,259025922,259025986,259026062,259026944,259026945,259026946,259026947,259027008,259027009,259027072,259027073,259027136,
259027137,259033088,259033091,259033216,259033280,259041792,259041795,259041804,259041856,259041920,259041932,259041984,259049728,259049731,259049740,259049792,
259049856,259049868,259049920,259058432,259058435,259058496,259058499,259058624,259058672,259061800,259064320,259064322,259064323,259064448,259064452,259064464,
259064512,259073546,259080192,259080193,259080448,259080450,259080451,259080576,259080592,259080593,259080640,259081216,259081220,259081221,259081224,259081356,
259081474,259081482,259081614,259081734,259082562,259084288,259084289,259084292,259084304,259084320,259084321,259084352,259084353,259084436,259084546,259084562,
259084578,259084610,259084696,259085318,259086342,259089416,259089417,259089920,259089924,259089925,259089984,259091528,259091529,259093012,259093013,259093512,
259093544,259093545,259093576,259094022,259094552,259096840,259096841,259097344,259097346,259097347,259097356,259097408,259097484,259097536,259100672,259100673,
259100736,259100737,259100812,259100813,259101000,259101216,259101224,259108428,259109416,259109417,259117860,259126017,259126081,259129344,259129345,259129472,
259129473,259129608,259129738,259129739,259130016,259130400,259130794,259131046,259131400,259131528,259133440,259133442,259133443,259133504,259133568,259133632,
259142144,259142147,259142208,259142320,259146144,259147776,259147777,259147780,259147808,259147809,259148034,259148048,259148051,259148066,259148176,259148184,
259148240,259149856,259149857,259149988,259150114,259151878,259154976,259154977,259155240,259155241,259155492,259155493,259156992,259156993,259157004,259157005,
259157032,259157033,259157040,259157056,259157057,259159136,259161102,259164704,259164712,259168268,259172904,259172905,259176972,259177036,259181348,259184908,
259184972,259193660,259195392,259195393,259195800,259195912,259196420,259196422,259196423,259196448,259196936,259196937,259197440,259197444,259197456,259197464,
259197504,259197722,259197960,259198024,259198984,259198985,259199488,259199492,259199504,259199508,259199520,259199552,259200040,259201032,259201048,259201064,
259201096,259204616,259205656,259205657,259207704,259212556,259212557,259213060,259213092,259213124,259214620,259228428,259228429,259229484,259232524,259232588,
259295232,259295235,259295360,259295363,259295424,259315746,259315878,259327114,259358720,259358721,259358848,259358849,259358984,259358985,259359114,259359115,
259359490,259359554,259359618,259359682,259361346,259361347,259362816,259362817,259362818,259362819,259362880,259362881,259362944,259362945,259363008,259363009,
259363274,259363360,259363362,259363363,259363488,259363492,259364874,259377474,259377475,259379232,259379233,259379488,259379490,259379491,259379616,259379680,
259381248,259381249,259381252,259381253,259381254,259381255,259381264,259381265,259381268,259381269,259381312,259381313,259381316,259381344,259381345,259381506,
259381522,259381528,259381570,259381602,259381656,259381720,259388512,259388513,259390476,259390477,259390528,259390529,259390568,259392544,259392674,259392675,
259411168,259419184,259419185,259419312,259419313,259423282,259426848,259426850,259426851,259426976,259426980,259427040,259430400,259430403,259430412,259430448,
259430464,259430467,259430540,259439152,259439155,259442720,259442721,259442976,259442978,259442979,259443104,259443168,259446816,259446817,259446820,259446880,
259446881,259447074,259447088,259447091,259447138,259458056,259458184,259458562,259458564,259458566,259458567,259458592,259458594,259458595,259458626,259458692,
259458694,259458695,259458720,259458724,259458756,259458784,259459602,259459603,259460104,259460106,259460107,259460232,259460248,259460296,259461650,259461680,
259462154,259462184,259462312,259463192,259463320,259468826,259474864,259474865,259476481,259476485,259476496,259476497,259476500,259476501,259476545,259476754,
259476760,259476816,259476888,259476944,259476952,259478561,259478576,259478834,259479601,259479633,259480598,259488793,259488825,259490056,259490057,259490560,
259490561,259490562,259490563,259490624,259490625,259491112,259491113,259491364,259491365,259491628,259492356,259492357,259492632,259492876,259492877,259494216,
259494217,259494658,259494704,259494722,259495272,259495524,259496452,259496468,259496484,259496516,259496972,259497036,259505676,259505724,259505740,259510116,
259512604,259512605,259607106,259607107,259609122,259610634,259652200,259672608,259672610,259672611,259672736,259672740,259672800,259721736,259721738,259721739,
259721864,259721880,259721928,259723816,259723944,259737608,259737609,259738112,259738113,259738116,259738117,259738128,259738129,259738176,259738177,259738392,
259738520,259738584,259739232,259740192,259740193,259741704,259741705,259741736,259741737,259741768,259741769,259742208,259742212,259742214,259742215,259742224,
259742228,259742232,259742240,259742244,259742256,259742264,259742272,259742276,259742288,259742304,259750424,259750425,259750456,259750457,259758632,259758696,
259906146,259984024,260001376,260001378,260001379,260001504,260001508,260003992,260003993,260004402,260004403,260004906,260020776,260020778,260020779,260020840,
260020904,260020968,260036648,260036649,260037152,260037153,260037156,260037157,260037216,260037217,260046848,260046980,260047238,260055040,260055172,260055296,
260055424,260055440,260055488,260072708,260079876,260178180,260186900,260341760,260341761,260341892,260341893,260342144,260342150,260342208,260349952,260349953,
260350084,260350085,260350336,260350337,260350400,260350401,260352064,260352196,260354048,260354049,260354112,260354244,260356102,260420876,260475156,260506900,
260571136,260571264,260579328,260579329,260579456,260579457,260579842,260579974,260583426,260587776,260587780,260587908,260595968,260595969,260599812,260599813,
260600066,260622660,260640772,260702464,260702724,260706308,260710916,260710917,260711168,260711170,260711171,260711200,260711232,260714792,260718852,260718853,
260720900,260720916,260722948,260722980,260723012,260731700,260745996,260768516,260769036,260772108,260777740,260780828,260833280,260833408,260833410,260833411,
260841472,260841473,260841600,260841601,260841602,260841603,260843714,260845570,260845698,260845762,260884545,260884677,260884804,260896769,260896833,260896864,
260896996,260897027,260902912,260902915,260902916,260902928,260903040,260903044,260903056,260911168,260911169,260911296,260912194,260920324,260928768,260928771,
260928864,260936000,260944452,260944453,260944706,260952388,260952389,260964352,260964353,260964480,260964481,260964608,260964610,260964611,260964736,260964738,
260964739,260964768,260964800,260966402,260966534,260966592,260968448,260968450,260968451,260968452,260968480,260968512,260968576,260968580,260968582,260968608,
260968640,260972544,260972545,260972672,260972673,260974114,260974246,260974592,260974593,260974594,260974595,260974608,260974609,260974720,260974736,260974737,
260974784,260975254,260975618,260975626,260975682,260976640,260976641,260976642,260976643,260976672,260976673,260976704,260976705,260976768,260976800,260976832,
260978690,260978706,260978722,260978754,260985892,260999432,260999436,260999564,260999748,261019908,261019956,261019972,261030144,261030145,261030676,261030916,
261030917,261031168,261031170,261031171,261031176,261031232,261031308,261031428,261031492,261033988,261033989,261034240,261034242,261034243,261034256,261034272,
261034304,261035012,261035020,261035044,261035076,261036036,261036052,261036100,261039620,261039621,261039872,261039874,261039936,261039938,261039939,261039968,
261042456,261042457,261043212,261043213,261043748,261044568,261049684,261061916,261061980,261063428,261063429,261067020,261067021,261067524,261067556,261067588,
261069068,261069084,261069132,261140544,261157185,261165120,261165252,261173313,261226496,261226497,261226628,261226629,261226880,261226896,261227024,261227156,
261227414,261227520,261227536,261227668,261230596,261234688,261234689,261235216,261235217,261235348,261235349,261235712,261235713,261235728,261235729,261236230,
261236231,261236800,261239064,261256476,261263628,261403714,261444688,261444820,261445078,261452881,261453013,261460560,261460692,261460818,261460950,261468753,
261468885,261469011,261501970,261521408,261521409,261521540,261521541,261521792,261521793,261521936,261521937,261522068,261522069,261522194,261522195,261522326,
261522752,261522944,261522950,261522951,261523520,261523521,261523652,261523653,261523778,261523779,261525776,261526532,261526596,261527558,261529600,261529601,
261530128,261530129,261530260,261530261,261530386,261530387,261531136,261531137,261531142,261531143,261531616,261531712,261531713,261532240,261532372,261532498,
261532744,261532876,261533002,261535270,261535744,261535745,261535768,261535840,261648448,261648449,261648576,261648577,261649474,261673024,261673025,261673282,
261673416,261681216,261681217,261681728,261681729,261681732,261681733,261681986,261751488,261752000,261754880,261754882,261754883,261754888,261754896,261754944,
261755008,261755016,261755024,261755040,261755072,261760576,261760704,261763081,261763225,261768512,261768640,261768772,261771268,261771269,261771280,261771281,
261771412,261771413,261771520,261771522,261771523,261771536,261771538,261771539,261771552,261771584,261771664,261771696,261771728,261771796,261772294,261777216,
261777218,261777219,261779472,261779473,261779736,261779737,261779988,261779989,261780480,261780481,261780492,261780493,261780512,261780513,261780544,261780545,
261781584,261782542,261784064,261784065,261784072,261784073,261784204,261784205,261784384,261784456,261784544,261785664,261785665,261788164,261788172,261788228,
261792264,261792265,261794376,261796365,261804300,261804301,261804804,261804836,261804868,261820996,261830220,261838156,261846876,261854028,261918914,261935168,
261935169,261935296,261935297,261935426,261935554,261943360,261943361,261943488,261943489,262014144,262017024,262017026,262017027,262017040,262017088,262017152,
262017154,262017155,262017168,262017170,262017171,262017184,262017216,262017218,262022720,262022723,262022848,262022851,262034432,262034435,262034436,262034439,
262034464,262034467,262034496,262034499,262034500,262034560,262034564,262034592,262034596,262034599,262034624,262034628,262034656,262042800,262042801,262044754,
262046400,262046401,262046528,262046530,262046531,262046656,262046658,262046659,262049792,262049793,262049794,262049795,262049800,262049801,262049856,262049857,
262049920,262049928,262049929,262049952,262049953,262049984,262050058,262050059,262050306,262050310,262050338,262050370,262050438,262050480,262050502,262051906,
262058497,262058529,262058561,262058657,262059562,262060105,262062080,262062081,262062212,262062213,262062464,262062465,262064192,262064193,262064324,262064325,
262064450,262064451,262064720,262064721,262064852,262064853,262064978,262064979,262065110,262066180,262066181,262066432,262066433,262066434,262066435,262066464,
262066465,262066496,262066497,262067812,262068224,262068225,262068230,262068231,262068240,262068241,262068248,262068249,262068292,262068293,262068320,262068321,
262068452,262068506,262068507,262068546,262068560,262068632,262068638,262069254,262069262,262072384,262072385,262072912,262072913,262076004,262076005,262076416,
262076417,262076432,262076433,262076440,262076441,262076512,262076513,262077040,262077172,262077448,262077449,262077516,262077517,262077536,262077537,262077958,
262078054,262082624,262082625,262082752,262083152,262083648,262083650,262083664,262083784,262091345,262092352,262092355,262100304,262115908,262115909,262116160,
262116162,262116163,262116176,262116932,262116940,262125133,262132564,262132565,262133572,262144000,262144128,262152192,262152193,262152320,262152321,262153218,
262154242,262156290,262161408,262161412,262169856,262169859,262169888,262169920,262169984,262170016,262170048,262170080,262176768,262176769,262177024,262177026,
262177027,262177152,262177160,262177184,262177216,262184960,262184961,262185472,262185473,262185476,262185477,262185730,262185904,262187008,262187009,262187016,
262187024,262187148,262187274,262187526,262189056,262189057,262189064,262189088,262189120,262189196,262189574,262193412,262193413,262195476,262203649,262203713,
262205697,262205729,262205761,262209792,262209984,262210564,262219268,262221824,262221825,262221840,262221888,262227220,262243076,262243596,262251329,262252300,
262275072,262275073,262275204,262275205,262275328,262275456,262275472,262275488,262275520,262275600,262275732,262275990,262276096,262276100,262277120,262277124,
262277136,262277394,262279168,262279172,262279184,262279200,262279232,262279364,262283264,262283265,262283673,262283792,262283793,262283924,262283925,262284288,
262284289,262284804,262284806,262285312,262285313,262285328,262285329,262285344,262285592,262286348,262287360,262287361,262287376,262287377,262287392,262287393,
262287424,262287640,262287800,262308612,262310156,262312204,262318876,262341396,262350620,262449168,262449169,262449296,262449297,262450178,262450186,262450242,
262453266,262472720,262472848,262480912,262480913,262481040,262481041,262485010,262505476,262505477,262505728,262505730,262505731,262505736,262505792,262505868,
262505928,262507588,262508816,262517768,262517769,262526260,262548498,262569984,262569985,262570116,262570117,262570368,262570369,262570400,262570401,262570432,
262570433,262572032,262572033,262572064,262572065,262572196,262572197,262572304,262572416,262572440,262572448,262572480,262572512,262573060,262573092,262573124,
262574080,262574081,262574112,262574113,262574144,262574145,262574276,262574496,262574560,262575140,262576134,262580224,262580225,262580256,262580257,262580784,
262580916,262581042,262581766,262581767,262581798,262582304,262582305,262584320,262584321,262584344,262584345,262584352,262584353,262584384,262584385,262584416,
262589748,262604048,262605844,262607892,262638860,262638876,262640908,262684672,262684673,262684800,262684801,262684930,262685058,262685088,262686722,262686854,
262688770,262688902,262694434,262694912,262694913,262694914,262694915,262695040,262695041,262695056,262695057,262695104,262695105,262695946,262696992,262696993,
262697120,262697121,262699010,262699026,262699042,262699074,262719489,262719497,262719629,262719752,262719755,262719880,262719944,262721569,262728193,262728257,
262731785,262731808,262731809,262731816,262731872,262731948,262732074,262732326,262733824,262733825,262733952,262733953,262734336,262734338,262734339,262734340,
262734464,262734468,262734470,262734471,262734480,262734528,262734850,262734856,262734984,262737922,262742529,262742657,262742721,262743562,262743776,262746121,
262750464,262750465,262750608,262750609,262750656,262750657,262751232,262751233,262751236,262751237,262751490,262751496,262751624,262751688,262751712,262751748,
262751808,262751812,262754304,262754305,262754308,262754309,262754320,262754321,262754368,262754369,262754452,262754562,262754578,262754592,262754626,262754712,
262754720,262754736,262755334,262759424,262759425,262759940,262759941,262760000,262760001,262760194,262760258,262760288,262762496,262762497,262762512,262762513,
262762560,262762561,262763028,262763029,262763346,262763520,262763521,262763528,262763529,262763532,262763533,262763552,262763553,262763568,262763584,262763585,
262763592,262763850,262764038,262764102,262764560,262764561,262764608,262764609,262764624,262764826,262767368,262767560,262769220,262770696,262770697,262771200,
262771204,262771206,262771207,262771232,262771236,262771264,262779400,262779401,262779425,262779464,262783748,262783749,262787329,262787340,262787341,262787393,
262787876,262796129,262799872,262799874,262799875,262800000,262800004,262800032,262800064,262801408,262801410,262801411,262801416,262801440,262801536,262801544,
262801552,262801568,262801600,262803464,262803488,262803592,262803616,262808225,262809609,262810112,262810115,262810176,262810240,262810304,262810336,262811817,
262816000,262816001,262817058,262817316,262817796,262817797,262817808,262817809,262818048,262818050,262818051,262818064,262818066,262818067,262818080,262818112,
262818192,262818224,262818256,262818324,262818822,262818824,262818828,262819844,262819845,262820098,262820128,262820130,262820131,262827016,262827017,262827040,
262827041,262827524,262827588,262829096,262829097,262830096,262830097,262830128,262834185,262834208,262834209,262834688,262834696,262834700,262834720,262834724,
262834752,262835240,262836776,262842889,262842913,262842920,262844969,262851364,262865412,262865413,262865664,262865666,262865667,262865680,262865696,262865728,
262866436,262866444,262867224,262867460,262867476,262867980,262869288,262869508,262869524,262869540,262869572,262871052,262876684,262878008,262878764,262882572,
262882573,262883076,262883108,262883140,262884620,262884636,262886196,262886700,262887708,262893340,262900492,262902572,262981633,262981761,262981825,262983713,
262985762,262985894,262993952,262993953,262993954,262993955,262994016,262994017,262994080,262994081,262994144,262994145,262995968,262995969,262996096,262996097,
262996098,262996099,262996496,262996626,262996627,262996994,262997122,262997128,262998211,263000066,263000194,263000210,263000226,263000258,263005920,263015492,
263017639,263025712,263025713,263025840,263025841,263027730,263027794,263029248,263029249,263029250,263029251,263029376,263029377,263029380,263029381,263029440,
263029441,263029728,263031494,263031880,263032840,263032841,263032864,263032865,263032968,263032969,263032992,263032993,263033346,263033350,263033378,263033410,
263033478,263033510,263033520,263034882,263034890,263034898,263034946,263035022,263041569,263041697,263041761,263042602,263043145,263043610,263045376,263045377,
263045568,263045569,263048260,263048261,263049216,263049217,263049220,263049221,263049280,263049281,263049472,263049473,263049474,263049475,263049504,263049505,
263049536,263049537,263049538,263049539,263049600,263049601,263049632,263049633,263049648,263049649,263049664,263049665,263049696,263049697,263050594,263050790,
263051268,263051269,263051284,263051285,263051328,263051329,263051332,263051333,263051344,263051345,263051522,263051538,263051544,263051586,263051602,263051736,
263052358,263059520,263059521,263060552,263060553,263061062,263063552,263063554,263063555,263063584,263063680,263063682,263063683,263063696,263063712,263063714,
263063744,263065632,263065760,263065762,263065763,263080995,263083043,263096329,263096352,263096353,263096457,263096480,263096481,263096832,263096835,263096864,
263096866,263096868,263096896,263096899,263096960,263096992,263096996,263096998,263097008,263097024,263097056,263097384,263100450,263105057,263105185,263105249,
263108649,263112736,263112737,263112868,263112869,263112992,263112993,263113120,263113121,263113184,263113185,263113265,263113397,263114279,263114340,263116801,
263116832,263116833,263116836,263116837,263116849,263116865,263116896,263116897,263117028,263117090,263117240,263120928,263120929,263125024,263125025,263125088,
263125089,263127040,263127041,263127168,263127169,263127568,263127569,263128064,263128065,263128066,263128067,263128192,263128193,263128200,263128201,263128224,
263128256,263128257,263128576,263128578,263128579,263128580,263128582,263128583,263128608,263128610,263128611,263128640,263128642,263128643,263128704,263128708,
263128710,263128711,263128736,263128740,263128752,263128768,263128772,263128800,263129088,263129089,263129090,263129091,263129104,263129105,263129216,263129232,
263129280,263129368,263129498,263130112,263130114,263130115,263130120,263130122,263130123,263130124,263130128,263130130,263130131,263130136,263130176,263130178,
263130248,263130252,263130254,263130264,263130312,263130320,263131136,263131137,263131138,263131139,263131152,263131153,263131168,263131169,263131200,263131201,
263131264,263131280,263131281,263131296,263131328,263131728,263132162,263132168,263132170,263132171,263132192,263132194,263132200,263132226,263132296,263132302,
263132328,263132360,263133184,263133186,263133187,263133200,263133202,263133208,263133216,263133218,263133232,263133248,263133250,263133264,263133280,263133336,
263136801,263138816,263138819,263138832,263138835,263138842,263138880,263138883,263138912,263138972,263140393,263140896,263140899,263140960,263141401,263146516,
263146517,263146768,263146770,263146771,263146832,263148850,263150596,263150620,263150628,263150660,263150692,263160608,263160609,263162372,263162373,263162624,
263162626,263162627,263162640,263162642,263162643,263162648,263162688,263162690,263162691,263162704,263162720,263162780,263163396,263163404,263163460,263163468,
263164200,263164201,263164420,263164421,263164452,263164453,263164704,263164706,263164707,263164768,263165484,263165964,263165965,263166264,263166484,263166516,
263167020,263179532,263179533,263180036,263180100,263180132,263182620,263182621,263183220,263183660,263192576,263192704,263192706,263192707,263201296,263201427,
263209984,263209987,263210112,263210116,263210176,263218192,263218193,263218320,263218321,263218456,263222290,263225344,263225345,263225472,263225473,263225738,
263225858,263226000,263226368,263226370,263226371,263226376,263226496,263226504,263226560,263229442,263235072,263235075,263235082,263235136,263235200,263235212,
263235264,263235296,263241728,263241729,263241984,263241985,263241986,263241987,263242112,263242113,263242128,263242129,263242176,263242177,263242256,263242257,
263242514,263242515,263242646,263242752,263242753,263242756,263242757,263243010,263243016,263243144,263243208,263243264,263243268,263243270,263243271,263243328,
263243332,263243840,263243841,263245824,263245825,263245828,263245829,263245840,263245841,263245888,263245889,263245972,263246082,263246098,263246114,263246146,
263246232,263246854,263247878,263249920,263249921,263250448,263250449,263250706,263250707,263250944,263250945,263251456,263251457,263251460,263251461,263251520,
263251521,263251712,263251714,263251715,263251776,263251778,263251779,263251808,263251904,263251936,263251952,263252032,263252033,263252560,263253072,263254016,
263254017,263254032,263254033,263254080,263254081,263254608,263255040,263255041,263255048,263255049,263255052,263255053,263255072,263255073,263255104,263255105,
263255558,263255590,263255622,263256064,263256065,263256080,263256081,263256088,263256128,263256129,263256144,263256160,263256220,263257102,263262208,263262211,
263262224,263262336,263262352,263279616,263279620,263279623,263279640,263279772,263287888,263295040,263295041,263296000,263296008,263296012,263296016,263296024,
263304704,263304716,263304719,263304720,263304732,263304800,263311681,263321344,263321360,263321372,263321440,263321456,263323648,263323649,263323776,263323777,
263324176,263324672,263324674,263324675,263324688,263324800,263324808,263324816,263324832,263324864,263325082,263325698,263325888,263327744,263327746,263327747,
263327760,263327776,263327808,263327872,263327888,263327904,263327936,263336528,263341072,263341073,263341328,263341330,263341331,263341456,263341488,263341520,
263345152,263345156,263345159,263345176,263345184,263345188,263345216,263349264,263349265,263351312,263351313,263353360,263353361,263353392,263353424,263353688,
263356416,263356417,263356680,263356681,263356928,263356929,263357184,263357186,263357187,263357200,263357216,263357248,263357312,263357328,263357336,263357344,
263357360,263357376,263357392,263357408,263357440,263357441,263357448,263357449,263357952,263357956,263357958,263357959,263357960,263357964,263357984,263358016,
263358464,263358465,263358472,263358473,263358480,263358481,263358604,263358605,263358982,263358992,263358996,263359040,263359552,263359560,263359692,263360070,
263360512,263360513,263360520,263360521,263360528,263360529,263360544,263360545,263360576,263360577,263360652,263360653,263361030,263361040,263361044,263361544,
263361548,263361568,263361576,263361608,263361708,263366152,263366153,263367192,263367193,263369240,263369241,263370252,263370272,263370284,263370336,263373588,
263373589,263374113,263374596,263374628,263374660,263375105,263375121,263375169,263375261,263375941,263376192,263377153,263377185,263377217,263377957,263382817,
263382881,263384896,263386912,263386940,263386976,263389184,263389185,263389592,263389593,263389712,263389713,263390208,263390209,263390224,263390225,263390488,
263390720,263390724,263390736,263390744,263390784,263390876,263391134,263391296,263391297,263391704,263391824,263392336,263393280,263393281,263393296,263393297,
263393344,263393345,263393752,263393872,263394304,263394312,263394316,263394320,263394328,263394336,263394368,263394384,263394838,263395328,263395344,263395352,
263395392,263395408,263395424,263398936,263398937,263404144,263421304,263423756,263423772,263426844,263454588,263488512,263488514,263488515,263488640,263488642,
263488643,263488648,263488704,263491730,263515216,263515217,263517360,263517361,263519250,263519314,263558144,263558147,263558152,263558155,263558160,263558163,
263558168,263558210,263558272,263558280,263558284,263558287,263558288,263558296,263558368,263566864,263566867,263566992,263567088,263574608,263574609,263574866,
263582800,263582801,263586832,263586960,263586962,263586963,263619584,263619585,263619586,263619587,263619712,263619713,263619720,263619721,263619744,263619745,
263619776,263619777,263620272,263620624,263620625,263620752,263620753,263621634,263621642,263621650,263621696,263621698,263621699,263621774,263621824,263621832,
263621840,263622672,263622673,263622800,263622801,263623680,263623682,263623683,263623688,263623690,263623691,263623712,263623714,263623715,263623728,263623744,
263623746,263623747,263623816,263623820,263623822,263623840,263623848,263623880,263623904,263624722,263632432,263632435,263636400,263636401,263638032,263638033,
263638036,263638037,263638290,263638352,263638480,263640112,263640113,263640370,263642134,263646224,263646225,263648304,263648305,263650320,263650321,263650352,
263650353,263650384,263650385,263650416,263652368,263652369,263652496,263652497,263654480,263656464,263656466,263656467,263656528,263656592,263656624,263656656,
263674992,263683185,263684096,263684097,263684504,263684505,263684624,263684625,263684882,263684883,263685400,263685401,263685632,263685633,263685656,263685657,
263685696,263685697,263685788,263685789,263685904,263685906,263685907,263685968,263686016,263686040,263686046,263686080,263686104,263686112,263686208,263686209,
263686616,263686617,263686736,263686737,263686994,263686995,263687512,263687768,263687900,263688158,263688192,263688193,263688256,263688257,263688664,263688665,
263688784,263688785,263689042,263689043,263689560,263689728,263689734,263689735,263689748,263689752,263689760,263689792,263689816,263689824,263689948,263690240,
263690241,263690264,263690265,263690304,263690305,263690336,263691276,263691292,263693848,263693849,263695960,263695961,263697944,263697945,263698008,263698009,
263699968,263699999,263700032,263700064,263700220,263734410,263750152,263750280,263750282,263750283,263766528,263766529,263766530,263766531,263766656,263766657,
263766660,263766661,263766720,263766721,263770120,263770121,263770248,263770249,263770626,263770658,263770690,263770758,263772170,263779882,263780890,263819787,
263836224,263836225,263836632,263836744,263836745,263837184,263837188,263837191,263837192,263837196,263837199,263837280,263845448,263845449,263865352,263865353,
263865480,263865481,263865856,263865858,263865859,263865860,263865888,263865890,263865891,263865920,263865922,263865923,263865984,263865988,263865990,263865991,
263866016,263866020,263866032,263866048,263866052,263866080,263867402,263867592,263868976,263869450,263876122,263881224,263881225,263881352,263881353,263883272,
263883274,263883288,263883400,263883416,263883464,263885320,263885322,263885323,263885352,263885384,263885448,263885480,263885512,263897600,263897601,263899144,
263899145,263899648,263899649,263899652,263899653,263899654,263899655,263899664,263899665,263899672,263899673,263899712,263899713,263899804,263899805,263899928,
263899930,263899931,263900056,263900120,263900168,263900169,263900232,263900233,263900678,263900686,263900736,263900740,263900744,263900748,263901192,263901193,
263901696,263901697,263901700,263901701,263901702,263901703,263901728,263901729,263901760,263901761,263902136,263902248,263902249,263902764,263903240,263903241,
263903256,263903257,263903272,263903273,263903304,263903305,263903750,263903782,263903814,263907864,263907865,263908872,263908873,263908936,263908937,263911960,
263911961,263911992,263912024,263915016,263915018,263915019,263915032,263915144,263915160,263915208,263918104,263918232,263931396,263931397,263931408,263931409,
263931672,263934984,263934985,263935000,263935001,263935492,263935504,263935508,263935516,263935524,263935536,263935556,263935568,263946760,263946761,263947784,
263947785,263948872,263948873,263949912,263950856,263950857,263950872,263950873,263950920,263950921,263951880,263951912,263951944,263952904,263952920,263952968,
263952984,264030930,264034458,264066072,264066200,264066203,264098384,264098385,264099016,264099017,264099328,264099331,264099332,264099335,264099394,264099424,
264099427,264099456,264099460,264099463,264099526,264099552,264099556,264099568,264145562,264160802,264160803,264162312,264162313,264162314,264162315,264162440,
264162441,264162504,264162505,264162818,264162822,264162880,264162882,264162883,264162884,264162914,264162950,264163008,264163012,264163014,264163015,264164392,
264164393,264164962,264164963,264165400,264165401,264165528,264165529,264166410,264166442,264166474,264175162,264177176,264177304,264177306,264177307,264199192,
264199195,264199256,264199320,264199384,264209928,264209929,264209930,264209931,264210056,264210057,264210120,264210121,264212056,264213016,264213017,264213144,
264213145,264214024,264214026,264214027,264214056,264214058,264214059,264214088,264214090,264214091,264214152,264214184,264214200,264214216,264214248,264215066,
264224768,264224769,264225176,264225177,264225296,264225297,264225428,264225429,264226304,264226305,264226308,264226309,264226368,264226369,264226688,264226689,
264226752,264226753,264226784,264226785,264226880,264226881,264227288,264227289,264227408,264227409,264227540,264227541,264228440,264228441,264228572,264228573,
264228830,264228864,264228865,264228928,264228929,264229336,264229337,264229456,264229457,264229588,264229589,264229896,264229897,264230400,264230401,264230404,
264230405,264230406,264230407,264230432,264230433,264230436,264230437,264230448,264230449,264230464,264230465,264230468,264230469,264230496,264230497,264230712,
264230816,264230840,264230880,264230904,264230912,264230913,264230936,264230937,264230976,264230977,264231008,264231009,264231416,264231536,264231537,264231668,
264231944,264231945,264231960,264231961,264232008,264232009,264232024,264232025,264232448,264232452,264232454,264232455,264232464,264232468,264232470,264232471,
264232472,264232476,264232478,264232479,264232512,264232516,264232518,264232519,264232528,264232532,264232536,264232540,264232544,264232548,264232560,264232568,
264232700,264232958,264236632,264236633,264240664,264240665,264240728,264240729,264240760,264241152,264241284,264241542,264249344,264249476,264249600,264249604,
264249728,264249732,264249734,264249792,264284484,264319236,264372484,264380676,264380677,264384772,264384804,264384836,264538176,264538308,264538566,264615268,
264835072,264843328,264843460,264843648,264843656,264964420,264975140,264976652,264976716,265082976,265083108,265083366,265091169,265091301,265105888,265114720,
265114852,265114978,265115110,265123171,265173026,265173158,265224192,265224193,265224324,265224325,265224576,265224577,265224582,265224583,265226564,265228576,
265228708,265230340,265230404,265232384,265232385,265232516,265232517,265232768,265232769,265234016,265234148,265234274,265234406,265235024,265235156,265235414,
265236768,265236769,265238532,265238533,265238596,265238597,265238784,265238786,265238787,265238800,265238802,265238803,265238808,265238848,265238850,265238851,
265238864,265238880,265238940,265256292,265263460,265343300,265351492,265351493,265359424,265359556,265359814,265367617,265367749,265420800,265420801,265420932,
265420933,265421184,265421190,265421191,265421200,265424900,265428992,265428993,265429124,265429125,265429376,265429377,265429392,265429393,265429520,265429652,
265429910,265430016,265430017,265430336,265430496,265430534,265431104,265431236,265431362,265433092,265433093,265433344,265433346,265433347,265433360,265433376,
265433408,265435142,265450756,265450788,265450820,265457924,265457932,265457988,265466124,265466125,265490756,265499476,265717824,265717825,265717956,265717957,
265718082,265718083,265718214,265718215,265721862,265726016,265726017,265726148,265726149,265726274,265726275,265730048,265730049,265730054,265730055,265730144,
265730276,265762128,265786692,265826498,265842752,265842753,265842880,265842881,265843010,265843138,265945536,265945792,265949184,265949186,265949187,265949188,
265949192,265949248,265949312,265949316,265949318,265949319,265949320,265949344,265949376,265953984,265953985,265954112,265954114,265954115,265954240,265954242,
265954243,265957376,265957377,265957378,265957379,265957384,265957385,265957440,265957441,265957504,265957505,265957512,265957513,265957536,265957537,265957568,
265957569,265957642,265957643,265957890,265957894,265957922,265957954,265958022,265958086,265959490,265965572,265965573,265965824,265965826,265965827,265965828,
265965830,265965831,265965856,265965888,265965892,265965956,265965988,265966000,265966020,265973764,265973765,265974016,265974017,265974018,265974019,265974048,
265974049,265974080,265974081,265974192,265974193,265974880,265975876,265975877,265976130,265976146,265976846,265976902,265984000,265984007,265984008,265984068,
265992288,266009412,266015040,266015300,266023492,266023493,266023744,266023746,266023747,266023760,266031428,266031429,266032452,266032460,266040652,266040653,
266048324,266048332,266056524,266056525,266088642,266207680,266211328,266211330,266211331,266211332,266211392,266211456,266211458,266211459,266211460,266211462,
266211463,266211488,266211520,266211522,266211523,266219520,266219521,266219522,266219523,266219584,266219585,266219648,266219649,266219650,266219651,266219680,
266219681,266219712,266219713,266219714,266219715,266220770,266221634,266221762,266228832,266246208,266246211,266246212,266246336,266246340,266246344,266254667,
266262624,266262625,266262756,266262757,266263008,266263014,266263152,266263284,266263542,266270816,266270817,266270948,266270949,266271200,266271201,266276928,
266276929,266277056,266277057,266277184,266277186,266277187,266277312,266277314,266277315,266277328,266277954,266278086,266285120,266285121,266285248,266285249,
266285648,266285649,266286144,266286145,266286146,266286147,266286272,266286280,266286281,266286410,266286658,266286662,266286790,266309952,266309953,266310212,
266310213,266310464,266310466,266310467,266310468,266310470,266310471,266310596,266318404,266318405,266318656,266318657,266318658,266318659,266326340,266326341,
266338304,266338432,266346496,266346497,266346624,266346625,266346752,266346754,266346755,266346880,266346882,266346883,266346912,266346944,266348546,266348678,
266350594,266350726,266364196,266373124,266381568,266381571,266381576,266381632,266381708,266381760,266381768,266404096,266404100,266404228,266404288,266412288,
266412289,266412480,266412481,266413060,266413061,266413314,266416128,266416129,266416132,266416133,266416144,266416192,266416276,266416386,266416402,266416450,
266417158,266436868,266436869,266437380,266440964,266440972,266440996,266441028,266445572,266445573,266448204,266449164,266449165,266469376,266469377,266469508,
266469509,266469632,266469636,266469760,266469764,266469766,266469767,266469792,266469824,266470432,266470564,266470822,266471424,266471428,266473472,266473476,
266473504,266473536,266473668,266477568,266477569,266477700,266477701,266477824,266477825,266477952,266477953,266477984,266477985,266478016,266478017,266478624,
266478625,266478756,266478757,266479616,266479617,266479620,266479621,266479648,266479780,266479872,266479874,266479875,266479888,266479904,266479936,266480000,
266480016,266480024,266480032,266480048,266480064,266480080,266480096,266480646,266481664,266481665,266481668,266481669,266481696,266481697,266481728,266481860,
266481920,266481922,266481923,266481952,266481954,266481955,266481984,266482080,266482096,266482144,266483718,266499428,266504484,266513188,266516748,266535172,
266535173,266535700,266536196,266537220,266537236,266539268,266539284,266539300,266539332,266543892,266543893,266544900,266544932,266544964,266546444,266546460,
266548524,266549532,266701892,266710084,266710085,266713108,266713109,266713362,266766368,266766369,266766500,266766501,266766752,266766758,266766759,266766816,
266770432,266770439,266770496,266774560,266774561,266774692,266774693,266774944,266774945,266775008,266775009,266778656,266778657,266778720,266778852,266778928,
266779064,266800148,266808340,266808341,266808592,266808594,266808595,266808656,266831140,266831141,266833156,266833164,266833220,266835300,266836244,266836276,
266841356,266841357,266845452,266845484,266845500,266845516,266893346,266893478,266937312,266939078,266940448,266940449,266940576,266940577,266940962,266941094,
266942466,266942474,266942482,266942530,266942606,266948896,266948900,266949024,266949028,266949088,266957088,266957089,266957216,266957217,266957280,266957281,
266958852,266958853,266958864,266958865,266958912,266958913,266958916,266958917,266959106,266959122,266959170,266995744,266995872,267003936,267003937,267004064,
267004065,267004450,267004582,267008034,267012384,267012388,267012516,267020576,267020577,267024420,267024421,267024674,267032672,267032804,267040865,267059200,
267059201,267059332,267059333,267059584,267059585,267059592,267059593,267059648,267059649,267059712,267059713,267060000,267060096,267060102,267060103,267060132,
267060144,267060160,267060256,267060257,267060388,267060389,267060514,267060515,267061252,267061253,267061504,267061506,267061507,267061512,267061516,267061520,
267061568,267061644,267061764,267061828,267062278,267062336,267062344,267062734,267063296,267063297,267063304,267063305,267063360,267063361,267063492,267063493,
267063584,267063680,267063688,267063694,267063695,267063728,267063744,267063752,267063814,267063844,267065348,267065356,267065380,267065412,267067392,267067393,
267067904,267067905,267068192,267068193,267068288,267068289,267068336,267068337,267068352,267068353,267068448,267068449,267068968,267069100,267069226,267069358,
267069956,267069957,267070208,267070210,267070211,267070224,267070226,267070227,267070232,267070272,267070274,267070275,267070288,267070304,267070364,267070464,
267070465,267070472,267070473,267070528,267070529,267070536,267070537,267070982,267070990,267071046,267071047,267071488,267071489,267071496,267071497,267071552,
267071553,267071784,267071785,267072000,267072001,267072006,267072007,267072036,267072037,267072064,267072065,267072288,267072290,267072291,267072352,267072432,
267072496,267072608,267073548,267073549,267073818,267073819,267073848,267074574,267077892,267077893,267079972,267079973,267081988,267082004,267082020,267082036,
267082052,267082084,267087716,267098412,267107116,267107180,267194530,267202592,267202593,267202720,267202721,267202722,267202723,267204610,267204674,267204738,
267204754,267204802,267204834,267237472,267237473,267237600,267237601,267237986,267238118,267245920,267254112,267254113,267257888,267258016,267258018,267258019,
267266080,267266081,267266208,267266209,267266210,267266211,267270178,267270306,267270370,267321760,267321761,267323392,267323393,267323394,267323395,267323396,
267323397,267323520,267323521,267323524,267323525,267323526,267323527,267323536,267323537,267323584,267323585,267323648,267323650,267323651,267323664,267323712,
267323714,267323715,267323776,267323778,267323779,267323792,267323794,267323795,267323800,267323840,267323842,267323843,267323856,267323872,267324640,267325472,
267325473,267325600,267325601,267325728,267325730,267325731,267325856,267325858,267325859,267325920,267327488,267327490,267327491,267327492,267327494,267327495,
267327504,267327506,267327507,267327520,267327522,267327523,267327524,267327536,267327552,267327554,267327555,267327556,267327584,267327616,267327620,267327622,
267327632,267327636,267327638,267327639,267327640,267327648,267327652,267327654,267327664,267327680,267327684,267327686,267327696,267327712,267331584,267331585,
267331586,267331587,267331712,267331713,267331728,267331729,267331776,267331777,267332832,267333218,267333348,267333664,267333665,267333792,267333793,267335680,
267335681,267335682,267335683,267335696,267335697,267335698,267335699,267335712,267335713,267335714,267335715,267335728,267335729,267335744,267335745,267335746,
267335747,267335776,267335777,267335808,267335824,267335825,267335832,267335833,267335840,267335856,267335872,267335888,267335889,267335904,267335992,267336122,
267336738,267336746,267336802,267336878,267341296,267344896,267344903,267344932,267344960,267344967,267344996,267349488,267349489,267353136,267353137,267353200,
267353332,267353376,267353379,267353440,267353443,267353528,267353592,267357024,267357156,267360292,267360293,267360544,267360546,267360547,267360552,267360556,
267360608,267360684,267365216,267365217,267368996,267368997,267369060,267369061,267369250,267369314,267376932,267376933,267376996,267376997,267386880,267387008,
267387010,267387011,267395072,267395073,267395200,267395201,267395202,267395203,267395730,267396098,267396226,267397314,267399170,267399298,267399314,267399362,
267404288,267404291,267404292,267404416,267404420,267404423,267404480,267412736,267412739,267412800,267412803,267412864,267412867,267412928,267412931,267412960,
267419648,267419649,267419776,267419777,267419904,267419906,267419907,267420032,267420034,267420035,267420040,267420096,267420162,267420294,267423746,267423878,
267427840,267427841,267427968,267427969,267428352,267428353,267428354,267428355,267428356,267428357,267428480,267428481,267428484,267428485,267428486,267428487,
267428544,267428545,267428610,267428674,267428738,267428802,267429952,267429953,267430598,267431936,267431937,267431938,267431939,267431944,267431945,267432000,
267432001,267432064,267432065,267432072,267432073,267432096,267432097,267432128,267432129,267432202,267432450,267432454,267432482,267432514,267432582,267432646,
267433986,267433994,267434002,267434050,267434126,267436288,267436289,267436292,267436293,267436420,267436421,267436480,267436481,267438144,267438145,267438534,
267440128,267440129,267440132,267440133,267440192,267440193,267440384,267440386,267440387,267440390,267440416,267440418,267440419,267440448,267440450,267440451,
267440512,267440518,267440544,267440560,267440576,267440582,267440608,267442182,267444480,267444481,267444672,267444673,267446336,267446337,267448320,267448321,
267448324,267448325,267448384,267448385,267448576,267448577,267448578,267448579,267448608,267448609,267448610,267448611,267448640,267448641,267448642,267448643,
267448704,267448705,267448736,267448737,267448752,267448753,267448768,267448769,267448800,267448801,267449380,267449381,267449698,267450368,267450369,267450372,
267450373,267450374,267450375,267450384,267450385,267450388,267450389,267450432,267450433,267450436,267450437,267450448,267450464,267450626,267450642,267450690,
267450706,267450722,267451398,267451462,267456512,267456515,267456516,267456528,267456640,267456644,267456647,267456656,267464768,267464769,267464896,267464897,
267464984,267465794,267473920,267473924,267473927,267482192,267482368,267482371,267482392,267482396,267482450,267482464,267482496,267482520,267482524,267482592,
267489344,267489345,267489600,267489602,267489603,267489679,267489728,267489736,267489744,267490308,267490316,267497536,267497537,267498048,267498049,267498052,
267498053,267498306,267498320,267498448,267498560,267498561,267498568,267498700,267498826,267499078,267505988,267505989,267506516,267514708,267514709,267515201,
267515652,267515748,267517952,267517953,267518080,267518081,267518208,267518210,267518211,267518336,267518338,267518339,267518352,267518368,267518400,267518480,
267518976,267518978,267518979,267518980,267519104,267519108,267519110,267519111,267519112,267519136,267519168,267520002,267520134,267520192,267522048,267522050,
267522051,267522052,267522064,267522080,267522112,267522176,267522180,267522182,267522183,267522192,267522208,267522240,267526144,267526145,267526272,267526273,
267526672,267526673,267527168,267527169,267527170,267527171,267527296,267527297,267527304,267527305,267527328,267527329,267527360,267527361,267527434,267527435,
267527682,267527684,267527686,267527687,267527714,267527746,267527812,267527814,267527815,267527844,267527876,267528192,267528193,267528194,267528195,267528208,
267528209,267528320,267528321,267528336,267528337,267528384,267528385,267529218,267529226,267529234,267529282,267529358,267530240,267530241,267530242,267530243,
267530256,267530257,267530272,267530273,267530304,267530305,267530368,267530369,267530384,267530385,267530400,267530401,267530432,267530433,267530520,267531266,
267531274,267531298,267531330,267531406,267532290,267532306,267532322,267532354,267535792,267539460,267539488,267539492,267539524,267543984,267543985,267545616,
267545617,267545620,267545621,267545874,267547696,267547828,267547904,267547907,267547936,267547939,267547954,267547968,267547971,267548000,267548064,267548128,
267549718,267550976,267550977,267551136,267551137,267551236,267551237,267551488,267551490,267551491,267551492,267551494,267551495,267551520,267551552,267551620,
267551648,267551652,267551684,267551712,267552292,267552768,267552769,267552772,267552773,267552776,267552777,267552908,267552909,267553024,267553026,267553027,
267553032,267553034,267553035,267553036,267553040,267553088,267553152,267553160,267553164,267553166,267553168,267553176,267553216,267553224,267553232,267553248,
267553286,267553296,267553300,267553344,267553348,267553860,267554122,267554820,267554821,267554848,267554849,267554980,267554981,267555072,267555074,267555075,
267555080,267555082,267555083,267555084,267555104,267555106,267555107,267555136,267555212,267555232,267555240,267555296,267555876,267556870,267559428,267559429,
267559680,267559681,267559682,267559683,267559712,267559713,267559744,267559745,267559840,267559841,267559904,267559905,267560484,267560485,267560960,267560961,
267560968,267560969,267561100,267561101,267561472,267561473,267561476,267561477,267561478,267561479,267561488,267561489,267561492,267561493,267561536,267561537,
267561730,267561744,267561746,267561747,267561792,267561794,267561795,267561808,267561872,267561920,267561936,267561944,267561968,267561996,267561997,267562314,
267562315,267562564,267563040,267563041,267563304,267563305,267563524,267563525,267563552,267563553,267563556,267563557,267563588,267563589,267563778,267563810,
267563824,267563842,267565056,267565057,267565064,267565065,267565068,267565069,267565072,267565073,267565080,267565081,267565088,267565089,267565096,267565104,
267565120,267565121,267565128,267565152,267565228,267565260,267565338,267565574,267565590,267565606,267565638,267567364,267567365,267569412,267569413,267569428,
267569429,267570436,267570444,267570500,267571460,267571461,267571492,267571493,267571524,267571525,267572524,267573524,267573532,267573588,267578636,267578637,
267578721,267579204,267580716,267580717,267581697,267581724,267581725,267581729,267581745,267581761,267581793,267583488,267583489,267583620,267583621,267583744,
267583745,267583872,267583873,267583888,267583889,267583936,267583937,267584016,267584017,267584148,267584149,267584276,267584406,267584407,267584512,267584513,
267584516,267584517,267584528,267584529,267584660,267584661,267584768,267584770,267584771,267584776,267584784,267584832,267584896,267584904,267584908,267584912,
267584920,267584960,267584968,267584976,267584992,267585024,267585028,267585030,267585031,267585040,267585044,267585088,267585092,267585600,267585601,267585732,
267585733,267586128,267586260,267586518,267586640,267586772,267587584,267587585,267587588,267587589,267587600,267587601,267587648,267587649,267587780,267587781,
267587840,267587842,267587843,267587856,267587858,267587859,267587872,267587904,267587968,267587984,267587992,267588000,267588016,267588032,267588048,267588064,
267588176,267588308,267588566,267588608,267588612,267588614,267588615,267588616,267588620,267588624,267588628,267588632,267588640,267588644,267588672,267588676,
267589632,267589636,267589638,267589639,267589648,267589652,267589656,267589696,267589700,267589712,267589728,267592208,267592209,267592704,267592705,267592720,
267592721,267593216,267593217,267593220,267593221,267593232,267593233,267593236,267593237,267593240,267593280,267593281,267593372,267593472,267593474,267593475,
267593488,267593490,267593491,267593496,267593500,267593536,267593538,267593539,267593552,267593568,267593616,267593624,267593628,267593680,267593688,267593712,
267594320,267594321,267594832,267594833,267595792,267595793,267596056,267596057,267596368,267596369,267596800,267596801,267596808,267596809,267596812,267596813,
267596816,267596817,267596824,267596825,267596832,267596833,267596864,267596865,267596880,267597082,267597083,267597316,267597318,267597319,267597334,267597348,
267597364,267597380,267597840,267597841,267597848,267597849,267597904,267597905,267598168,267598862,267601172,267601173,267603284,267605268,267605332,267615516,
267615580,267617028,267617029,267617548,267617549,267618052,267618060,267618116,267620620,267620621,267621124,267621140,267621148,267621156,267621188,267621644,
267621676,267621708,267622668,267622684,267622732,267626252,267626253,267628380,267629340,267629341,267630348,267630380,267630412,267695138,267696146,267696274,
267696338,267728082,267751888,267752448,267752451,267752452,267752455,267752456,267752459,267752514,267752576,267752580,267752583,267752584,267752588,267752591,
267752646,267752672,267760704,267760705,267760706,267760707,267760832,267760833,267760840,267760841,267791378,267791506,267793586,267814178,267814179,267814928,
267814929,267815056,267815057,267815184,267815186,267815187,267815312,267815314,267815315,267815376,267815938,267815942,267815946,267816000,267816002,267816003,
267816004,267816070,267816078,267816128,267816132,267816134,267816135,267816136,267817392,267818020,267819026,267819158,267823120,267823121,267823248,267823249,
267824128,267824129,267824130,267824131,267824136,267824137,267824138,267824139,267824192,267824193,267824194,267824195,267824256,267824257,267824264,267824265,
267824268,267824269,267824320,267824321,267824328,267824329,267824352,267824353,267827216,267827217,267827218,267827219,267827248,267827249,267827280,267827281,
267827344,267827345,267827376,267827377,267827408,267827409,267828226,267828234,267828258,267828266,267828274,267828290,267828298,267828322,267828366,267828398,
267844660,267844661,267844914,267846672,267846673,267846800,267846801,267846928,267846930,267846931,267847056,267847058,267847059,267847120,267848784,267850768,
267850770,267850771,267850772,267850832,267850896,267850900,267850902,267850903,267850928,267850960,267854864,267854865,267854992,267854993,267856976,267856977,
267858960,267858961,267858962,267858963,267859024,267859025,267859088,267859089,267859120,267859121,267859152,267859153,267861010,267861074,267869296,267869428,
267877489,267878400,267878401,267878532,267878533,267878784,267878785,267878848,267878849,267878928,267878929,267879060,267879061,267879186,267879187,267879318,
267879319,267879428,267879429,267879680,267879681,267879682,267879683,267879688,267879689,267879744,267879745,267879820,267879821,267879936,267879937,267879942,
267879943,267880000,267880001,267880320,267880326,267880327,267880384,267880390,267880391,267880416,267880512,267880513,267880644,267880645,267881040,267881041,
267881172,267881173,267881298,267881299,267881430,267881431,267882496,267882497,267882560,267882561,267882692,267882693,267882768,267882769,267882880,267882881,
267882904,267882905,267882912,267882913,267882944,267882945,267882976,267882977,267883088,267883089,267883220,267883221,267883346,267883347,267883478,267883524,
267883525,267883556,267883557,267883588,267883589,267883776,267883778,267883779,267883784,267883786,267883787,267883788,267883808,267883810,267883811,267883816,
267883824,267883840,267883842,267883843,267883848,267883872,267883916,267883948,267883980,267884038,267884064,267884070,267884071,267884084,267884102,267884128,
267884544,267884545,267884550,267884551,267884564,267884565,267884568,267884569,267884608,267884609,267884640,267884641,267884772,267884816,267884818,267884819,
267884880,267884952,267884958,267885016,267885572,267885580,267885588,267885596,267885636,267885652,267885668,267887120,267887121,267888128,267888129,267888192,
267888193,267889232,267889233,267890264,267890396,267891280,267891281,267892224,267892225,267892230,267892231,267892256,267892257,267892276,267892277,267892288,
267892289,267892320,267892321,267892528,267892530,267892531,267892592,267892760,267892761,267893360,267893772,267893773,267893788,267893789,267894278,267894302,
267894342,267898196,267898197,267902228,267902292,267902324,267911168,267911296,267911298,267911299,267919872,267919875,267920000,267920003,267920064,267927552,
267927553,267927680,267927681,267927682,267927683,267927810,267927938,267929794,267931650,267931778,267931782,267931842,267935744,267935745,267935872,267935873,
267935874,267935875,267937856,267937857,267937986,267937987,267939018,267939840,267939841,267939842,267939843,267939904,267939905,267939968,267939969,267939970,
267939971,267940000,267940001,267940032,267940033,267940034,267940035,267941090,267941890,267941906,267941954,267942018,267942034,267942082,267942114,267946048,
267946179,267974752,267974753,267974880,267974881,267975146,267975266,267980800,267980803,267980808,267980928,267980931,267980936,267980939,267980944,267980994,
267989504,267989507,267989520,267989523,267989632,267989635,267989648,267989651,267989728,267997248,267997249,267997376,267997377,267997506,267997634,267997716,
267998274,267998406,268005440,268005441,268005568,268005569,268006226,268006464,268006465,268006466,268006467,268006472,268006473,268006592,268006593,268006600,
268006601,268006978,268006982,268007110,268013632,268013633,268013760,268013761,268013896,268014026,268014027,268014091,268014144,268014146,268014147,268014223,
268014272,268014276,268014688,268022344,268022345,268022472,268022473,268030016,268030017,268030272,268030273,268030274,268030275,268030400,268030401,268030408,
268030409,268030528,268030529,268030532,268030533,268030784,268030786,268030787,268030790,268030912,268030918,268038208,268038209,268038472,268038473,268038720,
268038721,268038976,268038977,268038978,268038979,268039104,268039105,268040044,268042240,268042241,268042368,268042369,268042370,268042371,268042504,268042634,
268042635,268042752,268042754,268042755,268042880,268042882,268042883,268042884,268042912,268042944,268043426,268044290,268044418,268044426,268044480,268046336,
268046338,268046339,268046344,268046368,268046400,268046464,268046466,268046467,268046472,268046474,268046475,268046496,268046498,268046499,268046528,268046530,
268046531,268052138,268055040,268055043,268055072,268055075,268055104,268055107,268055168,268055171,268055200,268055203,268055216,268055232,268055235,268055264,
268058624,268058625,268058752,268058753,268058880,268058881,268058882,268058883,268059008,268059009,268059010,268059011,268059040,268059041,268059072,268059073,
268059680,268059681,268060672,268060673,268060674,268060675,268060676,268060677,268060800,268060801,268060804,268060805,268060806,268060807,268060816,268060817,
268060864,268060865,268060930,268060946,268060992,268060994,268060995,268061058,268061074,268061080,268061120,268061122,268061123,268061136,268061698,268061702,
268061706,268061762,268061830,268061838,268061894,268061896,268062720,268062721,268062722,268062723,268062724,268062725,268062752,268062753,268062784,268062785,
268062848,268062849,268062852,268062853,268062854,268062855,268062880,268062881,268062912,268062913,268062978,268063010,268063042,268063106,268063138,268063170,
268063280,268064770,268064774,268064786,268064802,268064834,268064902,268064918,268064934,268064966,268066816,268066817,268066944,268066945,268067872,268067873,
268068136,268068137,268068266,268068267,268068864,268068865,268068866,268068867,268068992,268068993,268069008,268069009,268069056,268069057,268069714,268069715,
268069888,268069889,268069890,268069891,268069896,268069897,268069898,268069899,268069900,268069901,268069952,268069953,268069954,268069955,268070016,268070017,
268070024,268070025,268070028,268070029,268070030,268070031,268070080,268070081,268070088,268070089,268070112,268070113,268070402,268070406,268070466,268070468,
268070470,268070471,268070498,268070534,268070596,268070598,268070599,268070912,268070913,268070914,268070915,268070944,268070945,268070976,268070977,268071040,
268071041,268071072,268071073,268071104,268071105,268071472,268071473,268071730,268071731,268072032,268072033,268072426,268072960,268072961,268072962,268072963,
268072976,268072977,268072978,268072979,268072984,268072985,268072992,268072993,268072994,268072995,268073008,268073009,268073024,268073025,268073026,268073027,
268073056,268073057,268073088,268073089,268073104,268073105,268073112,268073113,268073120,268073121,268073136,268073137,268073152,268073153,268073168,268073169,
268073184,268073185,268073494,268073986,268073994,268073998,268074018,268074026,268074034,268074050,268074058,268074082,268074126,268074158,268074190,268077792,
268081152,268081155,268081160,268081163,268081164,268081186,268081216,268081219,268081224,268081280,268081288,268081292,268081295,268081328,268081344,268081352,
268089856,268089859,268089868,268089871,268089898,268089904,268089907,268089920,268089923,268089932,268089984,268089996,268089999,268090032,268090048,268090060,
268090096,268093920,268093921,268094304,268094432,268094436,268097568,268097569,268097572,268097573,268097576,268097577,268097632,268097633,268097708,268097709,
268097826,268097832,268097834,268097835,268097890,268097960,268097966,268098024,268098052,268098086,268098096,268098100,268098116,268102496,268102497,268102624,
268102625,268105760,268105761,268105768,268105769,268105824,268105825,268105900,268105901,268106088,268106089,268106272,268106273,268106276,268106277,268106278,
268106279,268106336,268106337,268106496,268106499,268106530,268106544,268106547,268106552,268106560,268106563,268106594,268106608,268106672,268106684,268106736,
268107776,268107777,268107904,268107905,268108040,268108041,268108170,268108171,268108288,268108289,268108290,268108291,268108416,268108417,268108420,268108421,
268108432,268108433,268108480,268108481,268108544,268108546,268108547,268108560,268108562,268108563,268108608,268108610,268108611,268108672,268108674,268108675,
268108688,268108690,268108691,268108696,268108736,268108738,268108739,268108752,268108768,268108800,268108801,268108802,268108803,268108808,268108809,268108928,
268108929,268108936,268108937,268108992,268108993,268109312,268109314,268109315,268109316,268109318,268109319,268109320,268109322,268109324,268109376,268109378,
268109379,268109440,268109444,268109446,268109447,268109448,268109452,268109454,268109504,268109508,268109512,268109536,268109888,268109889,268110152,268110282,
268110283,268111872,268111873,268111874,268111875,268111880,268111881,268111888,268111889,268111936,268111937,268112000,268112001,268112008,268112009,268112016,
268112017,268112032,268112033,268112064,268112065,268112200,268112330,268112331,268112384,268112386,268112387,268112388,268112390,268112391,268112400,268112402,
268112403,268112404,268112408,268112416,268112418,268112419,268112448,268112450,268112451,268112512,268112516,268112518,268112519,268112528,268112532,268112534,
268112535,268112536,268112544,268112548,268112560,268112576,268112580,268112592,268112608,268112898,268112906,268112928,268112930,268112931,268112936,268112962,
268113038,268113056,268113064,268113120,268113920,268113922,268113923,268113928,268113930,268113931,268113932,268113936,268113938,268113939,268113944,268113984,
268113986,268113987,268113992,268114000,268114016,268114048,268114056,268114060,268114062,268114063,268114064,268114072,268114112,268114120,268114128,268114144,
268117512,268117513,268117514,268117515,268117640,268117641,268117704,268117705,268120600,268120601,268120728,268120729,268121610,268121642,268121674,268122624,
268122627,268122640,268122643,268122650,268122652,268122688,268122691,268122704,268122707,268122720,268122768,268122780,268122832,268122864,268124416,268124417,
268124560,268124561,268125184,268125185,268125188,268125189,268125440,268125441,268125442,268125443,268125448,268125449,268125452,268125453,268125504,268125505,
268125568,268125569,268125576,268125577,268125580,268125581,268125632,268125633,268125640,268125641,268125664,268125665,268125700,268125701,268125764,268125765,
268125952,268125954,268125955,268125956,268125958,268125959,268126016,268126018,268126019,268126020,268126022,268126023,268126048,268126084,268126148,268126180,
268126192,268127312,268127313,268128260,268128261,268128272,268128273,268128404,268128405,268128512,268128513,268128514,268128515,268128528,268128529,268128530,
268128531,268128544,268128545,268128576,268128577,268128656,268128657,268128688,268128689,268128720,268128721,268128788,268128789,268129046,268129047,268129280,
268129281,268129284,268129285,268129286,268129287,268129288,268129289,268129292,268129293,268129312,268129313,268129316,268129317,268129344,268129345,268129348,
268129349,268129538,268129544,268129546,268129547,268129550,268129568,268129570,268129571,268129576,268129580,268129586,268129602,268129608,268129632,268129672,
268129678,268129696,268129704,268129708,268129720,268129736,268129760,268129768,268129828,268129892,268130308,268130309,268130320,268130321,268130324,268130325,
268130372,268130373,268130384,268130385,268130516,268130517,268130562,268130578,268130584,268130586,268130587,268130626,268130642,268130900,268131334,268131342,
268131350,268131398,268133376,268133377,268133892,268133893,268134144,268134145,268134146,268134147,268134208,268134209,268134210,268134211,268134240,268134241,
268134384,268134385,268135504,268135505,268135768,268135769,268136464,268136465,268136980,268136981,268137472,268137473,268137480,268137481,268137484,268137485,
268137504,268137505,268137536,268137537,268137988,268137989,268138020,268138021,268138032,268138033,268138052,268138053,268138242,268138272,268138274,268138275,
268138290,268138306,268138336,268138338,268138339,268138512,268138513,268138576,268138577,268139092,268139093,268139520,268139521,268139528,268139529,268139532,
268139533,268139534,268139535,268139536,268139537,268139544,268139545,268139548,268139549,268139584,268139585,268139592,268139593,268139596,268139597,268139600,
268139601,268139608,268139616,268139617,268139632,268139740,268140054,268140118,268140544,268140545,268140808,268140809,268141056,268141057,268141064,268141065,
268141196,268141197,268141312,268141313,268141314,268141315,268141320,268141321,268141324,268141325,268141376,268141377,268141440,268141441,268141448,268141449,
268141452,268141453,268141454,268141455,268141504,268141505,268141512,268141513,268141536,268141537,268142656,268142657,268142920,268142921,268143176,268143177,
268143308,268143309,268143436,268143566,268143567,268144640,268144641,268144648,268144649,268144704,268144705,268144968,268144969,268145152,268145153,268145156,
268145157,268145158,268145159,268145160,268145161,268145164,268145165,268145184,268145185,268145216,268145217,268145224,268145225,268145356,268145357,268145408,
268145410,268145411,268145416,268145418,268145419,268145420,268145422,268145423,268145440,268145442,268145443,268145448,268145456,268145472,268145474,268145475,
268145480,268145484,268145504,268145536,268145544,268145548,268145550,268145551,268145568,268145576,268145580,268145584,268145592,268145600,268145608,268145612,
268145614,268145632,268145640,268145648,268145760,268145761,268146024,268146280,268146412,268146670,268146688,268146689,268146696,268146697,268146700,268146701,
268146704,268146705,268146712,268146713,268146752,268146753,268146760,268146761,268146784,268146785,268147048,268147200,268147204,268147206,268147207,268147208,
268147212,268147214,268147215,268147216,268147220,268147222,268147223,268147224,268147228,268147264,268147268,268147270,268147271,268147272,268147276,268147280,
268147296,268147712,268147720,268147724,268147726,268147727,268147776,268147784,268147788,268147808,268147816,268147824,268149256,268149257,268151368,268151369,
268153352,268153353,268153416,268153417,268154472,268154473,268155400,268155401,268155416,268155417,268155464,268155465,268155496,268156416,268156428,268156431,
268156480,268156492,268156495,268156512,268156524,268156528,268156668,268157700,268157701,268161292,268161293,268161796,268161797,268161828,268161829,268161860,
268161861,268162924,268163340,268163341,268163356,268163357,268163404,268163405,268163844,268163860,268163868,268163908,268163924,268163940,268171116,268171117,
268172060,268172061,268173056,268173068,268173071,268173120,268173132,268173135,268173152,268173164,268173168,268173180,268173312,268173440,268173442,268173443,
268208192,268208323,268228608,268228611,268228612,268228615,268228736,268228739,268228740,268228743,268228834,268236896,268236897,268237024,268237025,268237026,
268237027,268242944,268242947,268243072,268243075,268243088,268243138,268260576,268275776,268275777,268275904,268275905,268275906,268275907,268276170,268276290,
268276418,268276832,268276963,268292160,268292161,268292288,268292289,268292416,268292417,268292418,268292419,268292544,268292545,268292546,268292547,268300352,
268300353,268300480,268300481,268304384,268304385,268304512,268304513,268304514,268304515,268305570,268306434,268306562,268306624,268308480,268308482,268308483,
268308512,268308544,268308608,268308610,268308611,268308640,268308642,268308643,268308672,268308674,268308675,268325984,268326115,268336128,268336131,268336178,
268336192,268336195,268336256,268336259,268336306,268336320,268336323,268336370,268343296,268343299,268343304,268343307,268343308,268343330,268343360,268343363,
268343424,268343427,268343432,268343435,268343436,268343439,268343458,268343466,268343472,268343488,268343491,268343496,268343522,268352048,268352051,268352176,
268352179,268352240,268356064,268356065,268359712,268359713,268359714,268359715,268359716,268359717,268359776,268359777,268359840,268359841,268359844,268359845,
268359846,268359847,268359904,268359905,268359970,268360034,268360098,268360162,268360304,268367904,268367905,268367906,268367907,268367968,268367969,268368032,
268368033,268368096,268368097,268369920,268369921,268370048,268370049,268370050,268370051,268370448,268370449,268370578,268370579,268370944,268370945,268370946,
268370947,268371072,268371073,268371074,268371075,268371080,268371081,268371136,268371137,268371458,268371462,268371520,268371522,268371523,268371586,268371590,
268371648,268371650,268371651,268371652,268371680,268372032,268372033,268372162,268372163,268372560,268372690,268372691,268373202,268374016,268374017,268374018,
268374019,268374032,268374033,268374080,268374081,268374144,268374145,268374146,268374147,268374160,268374161,268374162,268374163,268374176,268374177,268374208,
268374209,268374210,268374211,268374738,268375042,268375050,268375072,268375074,268375075,268375106,268375170,268375178,268375182,268375200,268375202,268375203,
268375208,268375234,268375264,268376064,268376066,268376067,268376080,268376082,268376083,268376088,268376128,268376130,268376131,268376144,268376160,268376192,
268376194,268376195,268376208,268376210,268376211,268376216,268376218,268376219,268376256,268376258,268376259,268376272,268376274,268376275,268376288,268376290,
268381914,268384880,268389456,268389457,268391600,268391601,268391730,268391858,268393472,268393475,268393476,268393479,268393490,268393494,268393496,268393499,
268393500,268393536,268393539,268393540,268393543,268393554,268393568,268393571,268393600,268393604,268393607,268393622,268393624,268393628,268393631,268393664,
268393668,268393671,268393686,268393688,268393696,268393700,268397648,268397649,268399792,268399793,268401680,268401681,268401682,268401683,268401744,268401745,
268401746,268401747,268401776,268401777,268401808,268401809,268401872,268401873,268401904,268401905,268402040,268402688,268402689,268402816,268402817,268402952,
268402953,268403082,268403083,268403200,268403201,268403202,268403203,268403328,268403329,268403332,268403333,268403392,268403393,268403456,268403457,268403458,
268403459,268403520,268403521,268403522,268403523,268403584,268403585,268403586,268403587,268403648,268403649,268403650,268403651,268403680,268403681,268404800,
268404801,268405064,268405065,268405194,268405195,268406784,268406785,268406786,268406787,268406792,268406793,268406848,268406849,268406912,268406913,268406920,
268406921,268406944,268406945,268406976,268406977,268407112,268407113,268407242,268407243,268407296,268407297,268407298,268407299,268407300,268407301,268407302,
268407303,268407328,268407329,268407330,268407331,268407360,268407361,268407362,268407363,268407424,268407425,268407428,268407429,268407430,268407431,268407456,
268407457,268407460,268407461,268407472,268407473,268407488,268407489,268407492,268407493,268407520,268407521,268407554,268407584,268407586,268407587,268407600,
268407602,268407603,268407618,268407648,268407650,268407651,268407682,268407712,268407714,268407715,268407728,268407730,268407731,268407736,268407746,268407776,
268407778,268407779,268407792,268407904,268407905,268408168,268408298,268408299,268408832,268408833,268408834,268408835,268408840,268408841,268408842,268408843,
268408844,268408845,268408848,268408849,268408850,268408851,268408856,268408857,268408896,268408897,268408898,268408899,268408904,268408905,268408928,268408929,
268408960,268408961,268408968,268408969,268408972,268408973,268408974,268408975,268408976,268408977,268408984,268408985,268409024,268409025,268409032,268409033,
268409040,268409041,268409056,268409057,268409322,268409346,268409350,268409360,268409362,268409363,268409364,268409366,268409367,268409370,268409410,268409414,
268409424,268409426,268409427,268409442,268409478,268409488,268409492,268409494,268409495,268409502,268409542,268409552,268409556,268409584,268409856,268409858,
268409859,268409864,268409866,268409867,268409868,268409870,268409871,268409920,268409922,268409923,268409928,268409930,268409931,268409932,268409952,268409954,
268409955,268409960,268409968,268409992,268409996,268409998,268410056,268410060,268410062,268410088,268416616,268416617,268417560,268417561,268417562,268417563,
268417688,268417689,268417752,268417753,268418560,268418563,268418570,268418572,268418575,268418624,268418627,268418634,268418636,268418639,268418656,268418659,
268418666,268418672,268418700,268418764,268418796,268419072,268419073,268419204,268419205,268419328,268419329,268419456,268419457,268419520,268419521,268420704,
268420705,268420836,268420837,268420964,268420965,268421094,268421095,268421184,268421185,268421316,268421317,268423168,268423169,268423172,268423173,268423232,
268423233,268423364,268423365,268423424,268423425,268423426,268423427,268423456,268423457,268423488,268423489,268423552,268423553,268423584,268423585,268423600,
268423601,268423616,268423617,268423648,268423649,268424288,268424289,268424420,268424421,268425216,268425217,268425220,268425221,268425222,268425223,268425232,
268425233,268425236,268425237,268425280,268425281,268425284,268425285,268425312,268425313,268425444,268425445,268425472,268425473,268425474,268425475,268425488,
268425489,268425490,268425491,268425496,268425497,268425536,268425537,268425538,268425539,268425552,268425553,268425568,268425569,268425600,268425601,268425616,
268425617,268425624,268425625,268425628,268425629,268425664,268425665,268425680,268425681,268425688,268425689,268425696,268425697,268425712,268425713,268425840,
268425841,268425972,268425973,268426230,268426240,268426241,268426244,268426245,268426246,268426247,268426248,268426249,268426252,268426253,268426254,268426255,
268426304,268426305,268426308,268426309,268426310,268426311,268426312,268426313,268426316,268426317,268426336,268426337,268426340,268426341,268426352,268426353,
268426484,268426498,268426504,268426506,268426507,268426510,268426562,268426568,268426570,268426571,268426574,268426594,268426600,268426632,268426638,268426696,
268426702,268426728,268426744,268426752,268426756,268426758,268426759,268426816,268426820,268426822,268426823,268426848,268426852,268426854,268426855,268426864,
268426868,268426872,268427004,268427262,268427264,268427265,268428272,268428273,268428896,268428897,268429376,268429377,268431360,268431361,268431424,268431425,
268432240,268432241,268432480,268432481,268433408,268433409,268433424,268433425,268433472,268433473,268433504,268433505,268433912,268433913,268434032,268434033,
268434432,268434433,268434440,268434441,268434444,268434445,268434496,268434497,268434504,268434505,268434528,268434529,268434544,268434545,268434808,268434809,
268434944,268434945,268434948,268434949,268434950,268434951,268435008,268435009,268435012,268435013,268435014,268435015,268435040,268435041,268435044,268435045,
268435056,268435057,268435064,268435196,268435200,268435202,268435203,268435264,268435266,268435267,268435296,268435298,268435299,268435312,268435314,268435315,
268435320,268435324,268435328,268435392,268435424,268435440,268435448,268435452,268435454,268435455};
}  // namespace vf
