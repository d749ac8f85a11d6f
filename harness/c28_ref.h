#ifdef DATES
2415020.5000,
2417484.2183,
2419947.9366,
2422411.6549,
2424875.3732,
2427339.0915,
2429802.8098,
2432266.5281,
2434730.2464,
2437193.9647,
2439657.6830,
2442121.4013,
2444585.1196,
2447048.8379,
2449512.5562,
2451976.2745,
2454439.9928,
2456903.7111,
2459367.4294,
2461831.1477,
2464294.8660,
2466758.5843,
2469222.3026,
2471686.0209,
2474149.7392,
2476613.4575,
2479077.1758,
2481540.8941,
2484004.6124,
2486468.3307,
2086302.5000,
2816787.5000,
#endif
#ifdef PLACES
/* Io */
-174278.859,-385595.867,-16471.0056,
-113818.175,405325.569,12873.0165,
341649.69,-245296.737,-3892.3548,
-422396.036,-29632.133,-7106.52977,
302756.557,292558.156,14908.1117,
-53164.4993,-416866,-15605.9877,
-227001.993,357315.38,9288.3759,
401844.569,-126993.41,1436.59793,
-391956.818,-151696.747,-11399.6257,
206540.502,369248.348,16558.2548,
79772.6329,-413665.998,-13846.3583,
-320290.99,272233.056,5348.18096,
423239.091,-6290.59961,5644.92044,
-326200.415,-266869.157,-14156.9062,
86906.1129,410897.234,15738.582,
195811.482,-375154.729,-10265.0601,
-390341.773,159810.046,-182.422145,
402838.541,119164.369,10460.1843,
-237062.077,-350201.92,-16356.0248,
-44972.3868,419295.816,14531.8539,
296487.381,-297637.018,-6521.06127,
-421014.193,42446.2751,-4443.86091,
347886.12,238526.411,13596.6926,
-120749.605,-402097.506,-16037.9051,
-162614.452,390383.941,11398.3759,
375533.908,-192915.311,-1342.54558,
-411258.574,-85172.1509,-9188.26983,
266246.945,328310.458,15755.2289,
9045.79943,-421933.327,-14858.7685,
-270777.285,321046.651,7434.87413,
98823.6176,-411132.029,-13508.6036,
-166827.616,389067.647,11126.4521,
/* Europa */
-584020.513,330446.206,203.632841,
233731.832,634025.301,23084.1709,
665453.992,-122397.744,2185.63335,
-11882.8147,-671125.055,-27403.468,
-660632.179,-85328.7632,-15884.9861,
-173234.445,641895.462,17308.0066,
616012.559,263316.819,15508.4546,
361155.044,-571251.946,-17731.0503,
-502073.545,-453467.544,-26093.5237,
-526255.026,418081.619,4425.67416,
333545.722,576469.944,22463.2868,
615569.005,-252171.598,-2788.64311,
-164460.583,-648469.163,-27797.1218,
-672839.891,61266.9382,-9631.22847,
-54970.2883,674647.352,20970.1041,
652442.298,163902.042,12739.434,
255809.642,-614930.948,-20740.81,
-574460.816,-334345.58,-22432.5386,
-415017.874,525240.055,10950.5164,
456692.132,496899.023,22695.4048,
568354.178,-367782.18,-6769.86736,
-265967.759,-617765.517,-28067.8052,
-645526.629,169352.603,-5472.15147,
79398.4783,659393.368,22977.4648,
668602.009,11309.612,8955.8328,
115748.362,-664698.464,-23180.8555,
-637861.466,-227772.27,-19032.6475,
-328444.347,587626.113,14279.0276,
527030.252,408707.052,20684.0021,
475644.011,-464684.411,-10563.5357,
-558857.318,-374806.032,-21589.692,
-570205.024,-351908.332,-16265.2576,
/* Ganymede */
-1038242.1,-267338.087,-25701.1936,
851831.638,-644592.635,-10526.3361,
-31195.4601,1069393.79,38428.9596,
-824957.227,-683724.078,-37944.2543,
1046118.57,-219408.904,9689.38769,
-482382.006,955391.851,24339.908,
-452615.055,-970002.153,-38934.292,
1040769.49,248466.1,23463.6223,
-841287.984,661156.428,9415.52049,
7507.65736,-1069592.58,-34208.4321,
837450.599,668186.787,31836.1901,
-1041646.86,240672.883,-3893.53728,
463683.778,-964470.078,-27632.0687,
472437.076,960822.601,38441.8903,
-1045485.2,-226612.88,-19280.5119,
828517.478,-676425.748,-15606.5177,
13082.709,1070407.1,40309.4161,
-851602.391,-649182.491,-35605.5388,
1036143.97,-257877.45,4443.5855,
-446965.334,974397.167,30575.5113,
-494035.228,-949324.624,-43727.2422,
1046940.64,208860.378,25324.9141,
-819210.567,691577.583,10595.2005,
-39195.7351,-1069818.54,-38014.149,
859032.561,634439.267,36628.975,
-1034938.96,274986.246,-8916.42071,
423077.024,-984725.819,-24274.942,
507180.255,940051.369,37166.2821,
-1052137.06,-193362.712,-21224.8896,
803690.931,-710349.1,-11068.916,
-11055.6633,1068699.19,34409.4452,
1050063.84,-192840.732,10345.3161,
/* Callisto */
-759032.55,-1709778.7,-64526.278,
-694970.621,1763665.7,54736.2281,
1727218.59,-723823.369,-10110.7869,
-1761446.95,-668297.275,-39024.0799,
725327.785,1744929.45,67721.9034,
686490.75,-1737624.41,-54213.4959,
-1737312.06,757618.795,9036.88694,
1732211.77,722698.479,43499.8844,
-761871.481,-1715937.07,-68162.8168,
-724090.474,1749907.53,52277.7608,
1721428.25,-727268.575,-4328.51322,
-1761099.5,-691705.846,-45521.502,
705596.325,1743465.18,67990.898,
686525.81,-1743253.75,-49408.2587,
-1750943.13,728732.737,1000.01096,
1726365.31,719151.064,46530.32,
-750551.028,-1730680.73,-65836.0979,
-740537.563,1735435.63,45244.4709,
1722262.09,-731126.899,225.797777,
-1754532.72,-717438.013,-46063.9439,
698028.189,1738149.03,63204.074,
695726.89,-1748529,-44411.006,
-1755809.48,705386.716,-2067.31555,
1726591.47,714928.396,44842.2987,
-735966.836,-1743684.32,-62542.3033,
-748633.784,1723501.98,41641.9423,
1726732.64,-735582.889,1423.69176,
-1743671.59,-741207.964,-45503.0516,
699115.823,1732794.12,60107.4007,
710343.36,-1751354.64,-40717.7606,
1857729.29,220093.699,28758.5622,
-1652421.21,926759.36,16952.3748,
/* Mimas */
48523.6879,-163937.211,79840.0762,
138769.293,95665.5438,-68994.527,
-153763.609,101135.003,-43232.7353,
-105246.059,-129184.65,75279.7265,
134764.476,-118302.317,48555.4134,
177396.434,47832.9101,-42219.912,
34534.7149,157516.263,-85638.2627,
-157270.569,92914.6428,-31951.5735,
-135987.019,-107853.779,72922.741,
133329.772,-112742.177,51434.1537,
86986.2073,147209.098,-80449.1538,
-180807.131,23061.0254,6312.77901,
54380.0364,-163280.982,76144.9523,
170112.748,51344.5347,-49115.6108,
-65190.0318,153199.326,-79179.8434,
-188556.584,7130.77829,9872.69337,
-92447.5883,-138198.872,77067.2459,
105326.843,-139175.924,58888.6751,
181712.825,34529.5769,-38734.7191,
-31734.3087,160192.688,-81224.2851,
-173185.616,-53496.8277,48719.0025,
115363.428,-129465.003,62393.0886,
75215.2272,148917.231,-82592.6603,
-180436.775,45899.9073,-7876.64662,
-28553.6594,-160725.3,82692.2601,
173488.472,-73372.8806,16155.1652,
138937.888,98128.6691,-70463.0147,
-45061.8125,156796.358,-83459.3447,
-185465.312,35850.1359,-6631.37569,
-73638.7265,-148254.471,79526.9108,
-117533.234,-125272.73,71420.756,
168262.997,57588.45,-41047.8151,
/* Enceladus */
189083.487,-135969.242,52976.4233,
220639.624,-83993.3791,22719.6187,
236329.481,-23838.9928,-10327.5523,
231411.578,41821.6048,-44311.8247,
201872.391,103284.77,-73744.3035,
155429.444,151832.091,-94775.5243,
99337.8982,187535.202,-108114.188,
25526.5646,209678.083,-112573.55,
-47354.1874,208409.91,-104794.184,
-109940.091,190213.74,-89098.0181,
-169274.076,155113.504,-64848.579,
-212925.952,103788.423,-33638.7358,
-233805.698,42461.4283,557.182125,
-234395.614,-17746.4697,32145.3536,
-216344.453,-79676.8269,62796.8547,
-172883.566,-138700.056,89459.6122,
-117945.832,-177477.111,104418.515,
-54086.7023,-202698.748,111452.526,
20024.9769,-211915.406,109141.804,
91317.8461,-198789.449,95411.3427,
151275.146,-167285.793,73134.959,
196997.481,-125065.155,46583.167,
229719.316,-66027.4097,12422.4333,
237148.791,-25.0750659,-22977.2639,
223772.634,58163.4355,-52278.7708,
191739.334,116839.093,-80004.8982,
139539.326,166228.341,-100859.649,
74252.8563,197008.256,-110631.595,
6229.91307,209678.579,-110600.087,
-63155.8025,206406.845,-102065.065,
217491.257,-90554.0663,26276.7468,
79806.9783,-200934.034,97532.692,
/* Tethys */
-18115.4187,263027.195,-132320.978,
-139302.548,235214.777,-110856.322,
-235969.913,164508.358,-65387.4269,
-288189.6,62982.8506,-479.695363,
-283779.71,-60487.9115,53203.4181,
-216798.754,-164577.503,113722.736,
-103196.994,-242793.131,131993.149,
33267.1949,-259539.383,136209.095,
159089.978,-226214.817,102652.571,
250334.603,-147595.566,50679.8807,
292380.495,-39048.6986,-3026.56392,
278653.135,67948.6043,-68961.8193,
215207.893,172238.257,-105070.741,
107632.993,236713.562,-139291.577,
-22769.1861,262265.988,-133110.596,
-151966.975,229914.061,-105194.478,
-250279.55,145928.881,-55544.7911,
-292524.692,34758.9272,15538.2304,
-272861.032,-89724.612,67206.1467,
-196073.875,-183872.464,121516.533,
-84399.1964,-248732.302,134273.35,
41995.2412,-259558.977,133737.999,
159678.613,-225179.285,104006.468,
248892.783,-150106.021,50407.1398,
292544.032,-37831.3449,-2663.45903,
275500.673,76057.8633,-73040.3712,
200698.274,185426.917,-111163.736,
79512.74,246720.223,-140808.987,
-56746.9067,259006.254,-129289.845,
-178563.531,215303.032,-93701.5738,
266568.284,-119106.1,42135.5223,
155824.815,-226622.656,106682.304,
/* Dione */
-63682.1325,-327357.972,177862.093,
307611.823,-203843.031,76931.4821,
326305.219,154936.954,-112935.547,
-34564.766,333927.918,-171678.373,
-353485.391,129071.394,-33383.5103,
-264580.82,-227745.893,145043.515,
129058.129,-318609.774,154592.229,
375701.219,-43467.3836,-13591.8234,
185594.772,282959.687,-166457.975,
-215987.706,282509.332,-127291.462,
-370471.364,-45866.5827,60067.3707,
-95964.1332,-318806.948,176626.416,
289746.331,-226030.641,90373.6465,
339115.563,130336.522,-101393.77,
-631.533423,334464.689,-175322.43,
-342860.743,152584.277,-46628.5911,
-286224.597,-204593.791,135067.087,
99500.4833,-327241.346,161869.943,
370816.856,-69377.1819,410.543684,
214740.645,265982.43,-160263.546,
-191915.372,295911.577,-136601.375,
-373773.29,-16787.2369,45013.9059,
-126753.209,-310485.951,175199.484,
269088.201,-244064.706,101963.55,
352679.119,101964.056,-87780.5057,
28365.35,332879.243,-177434.065,
-326889.157,177234.904,-61155.5496,
-307067.128,-181998.668,125368.289,
70644.5158,-331111.002,166745.843,
363854.946,-98828.1569,16405.0573,
-353852.302,125986.824,-31691.595,
-31573.2466,334830.458,-172539.251,
/* Rhea */
-423767.816,294670.711,-109732.729,
69610.6153,-466675.252,234528.999,
327062.187,354139.317,-214855.919,
-523617.024,-21638.2963,60891.7982,
396944.599,-321156.504,129566.265,
-27532.1216,468515.263,-241253.938,
-360496.918,-326570.09,203436.741,
525439.03,-13791.924,-40411.871,
-368387.861,347312.441,-149836.535,
-16704.741,-464488.894,248332.936,
388897.96,297061.997,-196011.467,
-524309.651,55156.1923,23552.4485,
335614.641,-372422.993,162249.327,
57871.9034,461852.731,-248672.928,
-418173.561,-265363.458,181941.597,
518438.502,-93082.096,-4806.291,
-302276.693,395812.274,-174373.622,
-102297.578,-455560.848,245077.958,
441638.569,236546.095,-163931.843,
-511706.356,128648.726,-19556.763,
264546.015,-413588.807,191539.571,
142120.489,444151.173,-245726.86,
-464434.855,-201693.129,148862.371,
499060.299,-164309.31,40404.7364,
-228897.398,428633.426,-205714.584,
-184874.474,-428614.638,246041.666,
481606.616,164287.176,-136049.445,
-484635.987,201064.127,-55850.6255,
187410.288,-444400.827,213355.768,
222750.102,413843.912,-238648.619,
518940.194,-96209.5938,-3295.70332,
507591.114,98874.5612,-103736.365,
/* Titan */
317655.527,-1027423.52,500707.155,
-401318.053,1073686.13,-516833.152,
446749.415,-992884.868,470854.568,
-535950.684,1030398.83,-481797.294,
569836.688,-945239.223,434506.158,
-663398.613,973392.503,-440045.463,
685277.936,-885129.809,392160.236,
-781949.423,903412.689,-392146.587,
791542.028,-813359.315,344406.79,
-890006.272,821373.45,-338765.82,
887226.075,-730878.085,291917.638,
-986109.948,728347.547,-280654.884,
971072.928,-638770.852,235435.023,
-1068959.62,625554.506,-218640.398,
1041986.13,-538242.368,175758.987,
-1137431.87,514346.514,-153610.373,
1099042.33,-430602.202,113733.927,
-1190597.49,396192.1,-86499.1677,
1141501.24,-317248.933,50234.6517,
-1227735.6,272657.692,-18271.2767,
1168813.35,-199653.858,-13847.698,
-1248344.64,145387.224,50095.5753,
1180625.5,-79344.2305,-77619.6134,
-1252149.84,16080.1288,117627.531,
1176784.59,42113.9777,-140198.816,
-1239106.95,-113531.905,183371.348,
1157339.32,163133.912,-200727.301,
-1209402.21,-241708.894,246410.279,
1122540.11,282126.323,-258383.669,
-1163448.6,-366726.759,305878.621,
-788919.298,-770917.621,462314.004,
823753.007,762242.82,-463193.933,
/* Hyperion */
-1445302.63,-494416.552,370340.058,
-815705.23,1303491.8,-611394.501,
1347132.67,722246.04,-488138.208,
866612.683,-1091537.46,499243.689,
-830894.553,-928001.85,563530.299,
-1348550.66,64376.8183,91539.0286,
-804651.974,1142201.42,-526379.954,
1046117.45,1005314.86,-636603.152,
1180622.39,-980808.849,393571.832,
-1097679.4,-977098.721,628880.036,
-1274156.2,821083.148,-289347.313,
167979.859,1216044.6,-644840.81,
1135301.34,555286.151,-409349.04,
1183296.18,-771121.029,263656.309,
-720471.59,-1217939.63,692012.962,
-1502817.5,664476.267,-176488.211,
537471.614,1328568.48,-720324.046,
1435574.95,-301376.9,9467.52673,
359438.116,-1164856.64,547772.689,
-833043.739,-938435.608,547220.523,
-1467787.62,350374.37,-42924.052,
123303.41,1394263.38,-716393.716,
1572811.67,-204265.313,-33924.6365,
-111394.993,-1423690.38,738893.203,
-1467889.83,-268530.917,268540.328,
-997079.425,860578.563,-357432.838,
200588.24,1175333.8,-630540.022,
1429609.52,67403.6816,-172671.89,
238793.239,-1390743.33,705677.292,
-1604214.2,-283347.289,313560.766,
633520.739,-1082632.38,501125.109,
-1546346.11,-146753.267,201707.585,
/* Iapetus */
870575.425,3264721.9,-1036927.29,
-362323.878,3449710.83,-840317.259,
-1539291.33,3209928.76,-531655.98,
-2537549.64,2590744.88,-169478.489,
-3241786.73,1658654.05,218497.448,
-3574433.37,538679.372,577608.92,
-3497317.08,-650082.495,861939.657,
-3023473.92,-1751294.54,1049503.72,
-2205375.16,-2662541.64,1106384.56,
-1119678.56,-3260215.2,1033837.54,
87902.2269,-3467325.87,837295.286,
1289145.15,-3246162.44,530790.438,
2315039.45,-2621006.52,171467.756,
3055140.69,-1648318.91,-221521.814,
3383204.67,-457128.127,-572947.372,
3262028.49,789028.251,-843533.822,
2703154.47,1932220.74,-1001164.4,
1786817.37,2820155.54,-1014124.13,
629130.825,3345101.39,-900415.708,
-607951.816,3436848.27,-663005.655,
-1761260.69,3106188.78,-347541.632,
-2713199.86,2396240.34,6437.34921,
-3342713.67,1399664.65,365397.032,
-3591173.91,240122.488,669295.406,
-3422366.23,-946533.599,898312.118,
-2876224.06,-2018232.56,1018922.94,
-1989601.91,-2873970.76,1017365.05,
-879582.21,-3386697.28,902606.173,
334942.526,-3503503.73,671598.835,
1501059.63,-3190767.3,368694.079,
-3239039.22,-1327390.35,377180.974,
-2083264.26,-2919712.86,377025.327,
/* Phoebe */
11893122.1,143175.396,-1049366.91,
-12999217.5,5467166.06,1221869.44,
11886864.3,4227666.13,-1038935.79,
-13338801.1,1995684.61,1287045.31,
10786026.6,7862214.52,-841009.996,
-12684190.1,-1678007.62,1170614.67,
8872980.02,10830509.6,-489315.431,
-10891205.8,-5252367.3,850673.828,
6400379.79,13030482.8,-31570.4546,
-7905685,-8297607.05,343312.914,
3577366.42,14423508,477662.218,
-3879220.76,-10291271.3,-277272.392,
577067.974,15002018.1,980848.341,
732934.084,-10776684.8,-876650.363,
-2449283.99,14772238.4,1419933.2,
5236608.08,-9604757.75,-1299866.33,
-5357082.81,13747258.4,1738603.37,
8966443.21,-7042455.29,-1438689.55,
-7993338.96,11947817.5,1885259.2,
11533087.5,-3615315.7,-1269680.27,
-10182447.4,9410753.7,1817622.19,
12852150.9,141120.335,-840009.626,
-11714639.5,6207486.95,1510179.21,
13027869.4,3818014.21,-232536.215,
-12343576.7,2476460.55,965890.351,
12236957.7,7147437.09,460558.962,
-11808889.1,-1529385.89,232660.973,
10664374.7,9966000.62,1150809.86,
-9910544.5,-5395988.41,-579911.366,
8480095.26,12174593.7,1758543.46,
3592926.52,10478016.2,1215242.86,
11217831.9,-6624765.71,-2606851.43,
/* Triton */
-206422.507,212816.945,193954.64,
249333.917,213160.58,133846.445,
283015.098,-133653.347,-166008.865,
-159716.544,-255677.938,-186115.887,
-330475.131,40530.788,121091.489,
55648.679,266394.167,226841.527,
344245.886,55910.361,-62357.8952,
51883.6138,-244208.207,-251376.507,
-323367.93,-144647.337,-5480.49846,
-151597.686,191688.181,256502.415,
270580.061,215495.403,76602.0086,
233133.909,-114801.793,-240808.71,
-192015.34,-260242.494,-144650.127,
-288176.631,22266.6379,204885.656,
96523.8974,273569.955,203377.292,
311351.108,75408.9369,-151306.595,
5303.22398,-253654.667,-247287.063,
-300795.758,-167088.095,84398.9699,
-102300.704,202383.619,272204.229,
258345.588,242240.969,-9827.32148,
183955.721,-125155.858,-275710.01,
-189306.649,-292114.742,-65967.234,
-241557.646,30293.6335,257394.455,
101847.802,310707.17,136410.357,
269142.417,71871.1003,-218898.629,
-6079.38666,-295434.792,-195450.839,
-264127.113,-170132.001,163742.715,
-87076.4233,247422.062,238159.034,
227565.928,253637.963,-96959.9814,
167095.933,-171380.867,-261203.471,
-9650.10053,-352953.846,29157.5769,
323011.439,145136.198,10899.5573,
/* Miranda */
-13814.1543,-22872.8881,-127193.47,
-26230.5359,-1958.25575,-127195.814,
-41278.4578,-16325.7125,-121868.975,
-51509.9375,-2407.50873,-119336.401,
-65497.9542,1822.22174,-112057.277,
-75858.955,-6646.70198,-105059.278,
-85807.3251,15410.9434,-96477.0108,
-94901.251,735.723745,-88451.5252,
-104699.204,14855.9392,-75338.7452,
-108391.436,18391.15,-69351.1145,
-119254.965,10374.4156,-49899.4307,
-117785.328,29335.2076,-46256.2821,
-126273.852,16765.5235,-25553.479,
-125715.295,26266.8046,-17770.4176,
-125898.186,32213.7379,-1621.95253,
-127564.181,20439.9133,12809.9303,
-121289.327,39685.9302,23211.5121,
-121012.913,25498.3222,40073.7993,
-115255.118,32697.3738,49862.7163,
-106079.291,37770.4969,64495.865,
-104378.666,23544.0269,73835.5774,
-87888.5454,41049.9696,86076.2154,
-86836.6658,26415.9274,92866.3242,
-69753.4232,30015.5449,105449.824,
-62242.3558,35351.9758,108120.187,
-49126.1603,17650.2274,118979.857,
-36618.4829,34148.226,119858.616,
-23760.6023,17735.0815,126254.059,
-11467.2834,19215.0004,128068.862,
5003.89643,23771.1949,127517.828,
50693.9984,-1983.5365,119704.53,
124791.84,-33484.7849,10814.8205,
/* Ariel */
-140627.548,12523.0105,-128840.501,
153716.453,-17882.1884,111500.506,
-165496.055,23317.2036,-92344.29,
174498.024,-28036.9826,72230.4334,
-180964.509,32423.73,-51184.8885,
185225.029,-36492.6681,28394.5256,
-186690.068,39759.7376,-7188.75524,
185036.361,-42927.2572,-16674.8771,
-181930.756,45267.9313,37876.1824,
174623.431,-46943.84,-60120.4392,
-166365.409,48064.6338,81196.0274,
154963.965,-48075.8612,-100298.976,
-141175.759,47651.119,119444.841,
126474.525,-46467.5683,-135484.344,
-108473.24,44656.9335,150363.764,
90212.8165,-42518.679,-163122.259,
-70011.5242,39544.0175,172971.83,
48840.4622,-36196.3061,-181089.771,
-27233.4825,32084.9587,186255.944,
5332.42846,-27635.716,-188766.845,
17564.5585,22575.7802,188837.434,
-38412.6653,-17623.7032,-186217.9,
61102.0967,12017.4106,180337.604,
-80701.9222,-6749.64822,-173198.475,
100528.994,937.2776,161947.671,
-118738.774,4817.4817,-149833.583,
134284.804,-10485.3831,135063.732,
-149476.735,16304.2211,-117739.999,
161118.602,-21429.1679,100455.813,
-171283.599,26482.9395,-79507.7579,
-111354.023,2743.68864,-154752.199,
8164.6224,24544.8878,189192.575,
/* Umbriel */
-20948.8667,41301.9327,260905.433,
19609.2374,-41595.6157,-263178.426,
-18041.9785,41168.9048,261036.306,
13839.1399,-40766.5926,-263441.569,
-14918.2903,40835.8842,261723.859,
8768.99962,-39652.9598,-263141.805,
-10947.3981,39970.7851,262777.551,
4794.1545,-38406.7059,-262663.498,
-6107.17815,38629.6271,263743.245,
1564.3648,-37221.2454,-262370.058,
-826.850575,37118.4995,264312.003,
-1467.417,-36172.6923,-262375.033,
4512.29334,35645.2666,264424.694,
-4641.38838,-35260.1217,-262665.144,
9654.82179,34312.3955,264084.09,
-8290.04528,-34492.7779,-263208.365,
14232.2016,33301.2004,263349.911,
-12831.323,-33834.4205,-263817.991,
17912.3956,32749.3995,262519.599,
-18307.1979,-33120.4306,-264105.298,
20892.059,32469.8728,262026.714,
-24075.8483,-32168.178,-263782.844,
23904.231,32042.9106,262044.048,
-29303.2469,-30982.9741,-262951.527,
27577.9547,31218.048,262334.876,
-33662.6847,-29736.7805,-261953.309,
32009.3185,30058.0676,262546.944,
-37336.2573,-28557.2561,-261040.676,
37003.807,28697.2403,262484.298,
-40550.1457,-27480.2421,-260329.26,
-35600.4139,-28903.5032,-261945.249,
207258.561,-66593.2834,-153828.946,
/* Titania */
317215.364,-26996.8114,297192.75,
308304.283,-23716.5306,306601.007,
299237.409,-20464.3513,315662.463,
289725.476,-17150.0932,324514.552,
280073.696,-13864.606,333034.724,
270015.44,-10538.5483,341290.429,
259805.803,-7227.77049,349251.727,
249261.785,-3905.89354,356879.876,
238551.934,-592.971721,364244.434,
227584.292,2711.14546,371218.356,
216462.707,5998.6753,377932.393,
205137.756,9265.8104,384219.03,
193705.705,12507.0251,390223.435,
182090.291,15721.0119,395779.518,
170434.294,18903.4253,401020.772,
158582.168,22064.8484,405799.666,
146746.756,25188.4468,410240.209,
134688.847,28310.1959,414203.149,
122664.451,31394.0384,417826.041,
110409.592,34487.663,420952.104,
98150.2561,37561.5143,423756.258,
85689.8337,40635.9425,426046.874,
73154.2579,43717.3882,428039.702,
60472.797,46781.6366,429514.74,
47661.8587,49862.8137,430709.934,
34761.9937,52913.4704,431398.368,
21734.5768,55965.77,431816.337,
8665.58528,58971.5269,431747.516,
-4466.50889,61951.6159,431412.914,
-17601.4418,64859.4694,430610.018,
-209465.417,98626.1291,370199.877,
305074.959,-23709.6035,311005.073,
/* Oberon */
-526222.265,144494.179,208722.399,
-531468.147,143678.478,195435.829,
-536431.978,142762.931,181955.124,
-541023.493,141741.887,168361.105,
-545331.263,140629.774,154572.622,
-549270.3,139421.296,140682.211,
-552921.806,138128.568,126608.796,
-556206.853,136753.201,112456.13,
-559197.459,135300.994,98145.7156,
-561823.232,133779.542,83791.8313,
-564143.736,132192.331,69317.853,
-566100.908,130546.316,54846.52,
-567739.353,128845.092,40300.2846,
-569015.616,127095.047,25805.548,
-569958.974,125293.825,11280.982,
-570541.267,123452.836,-3149.3521,
-570775.937,121558.851,-17573.4579,
-570651.654,119627.31,-31873.8293,
-570163.866,117638.054,-46148.1289,
-569320.433,115604.138,-60286.9327,
-568097.393,113502.507,-74398.3526,
-566522.601,111344.708,-88380.5825,
-564554.046,109101.443,-102348.776,
-562238.94,106790.676,-116205.921,
-559519.362,104374.93,-130068.107,
-556462.204,101880.8,-143837.59,
-552994.455,99269.5882,-157625.564,
-549203.721,96571.9894,-171327.835,
-545002.968,93754.5231,-185046.164,
-540499.384,90852.2763,-198667.727,
-488338.055,146854.302,285944.61,
-343561.485,8705.56524,-471475.973,
/* Phobos */
-7683.82579,-4489.70508,3360.27053,
8327.53761,664.649416,-3935.51159,
-7976.97659,3219.07864,4058.1262,
5619.80295,-6629.42063,-3196.66291,
-2927.31735,8758.31724,2081.19596,
-1086.15734,-9259.22225,-195.60554,
4051.35746,8371.40743,-1306.54738,
-7059.83014,-5436.75708,3012.38952,
8177.6682,2268.54913,-3831.25876,
-8206.06408,2145.31655,4227.4015,
6563.92327,-5367.96588,-3701.83792,
-3816.58593,8320.39128,2595.61795,
330.105448,-9182.30681,-929.382662,
3105.77321,8948.73156,-822.867992,
-6114.39006,-6473.33061,2563.0554,
7909.67341,3603.01132,-3730.99222,
-8250.63139,829.561918,4284.99725,
7352.59275,-4137.43413,-4103.80853,
-4661.08014,7612.19267,2996.44548,
1788.20104,-8985.92871,-1611.32667,
2121.06615,9234.01219,-412.047638,
-4961.94008,-7534.03824,2034.46578,
7496.9428,4640.34202,-3581.34302,
-8181.01766,-754.438664,4220.35082,
7889.98177,-3059.98724,-4326.17082,
-5613.28088,6574.08456,3354.13714,
3038.43618,-8693.63351,-2121.94885,
915.263227,9298.09095,69.9803961,
-3822.69426,-8421.4564,1518.224,
6864.73537,5565.64558,-3274.32779,
4757.84082,8044.26104,-1799.53995,
-1263.18891,9369.19598,1033.09852,
/* Deimos */
9163.25291,21421.7889,-2701.05654,
-2781.90826,-23279.7451,-884.328816,
-4223.56678,22763.8978,3737.03047,
10901.0214,-19913.6754,-5928.18799,
-16245.7454,14950.7894,7911.43297,
19627.0233,-8401.2212,-9725.79261,
-20858.8498,1001.73576,10684.2743,
20164.5,6526.56065,-10047.5235,
-17694.9279,-13300.6156,7774.92266,
13387.6885,18694.3208,-4614.28861,
-7438.48939,-22200.5202,1528.48748,
460.227688,23420.3924,1146.0206,
6569.53906,-22207.1549,-3751.90351,
-12608.6379,18661.8505,6557.77424,
17118.5752,-13136.1767,-9195.26331,
-19900.0932,6278.03397,10725.5548,
20928.2137,1226.06808,-10512.2152,
-20004.4503,-8552.38884,8786.89028,
16862.7943,14998.6311,-6381.69547,
-11664.5919,-19965.3834,3964.32283,
5118.98941,22842.9629,-1496.60371,
1843.80908,-23335.6343,-1485.93561,
-8268.65826,21391.375,4949.94733,
13719.7746,-17183.5217,-8154.44483,
-17959.9863,11226.6771,10096.1261,
20631.4922,-4151.83552,-10350.9156,
-21239.9667,-3360.45191,9379.12607,
19401.7399,10532.3718,-7929.97303,
-15257.8252,-16679.4566,6257.46058,
9526.52948,21065.1117,-3996.06954,
-4757.6282,22786.9614,2918.00247,
-15497.2358,15370.559,8603.91713,
/* Amalthea */
117550.053,137464.165,7872.55345,
-155086.703,-92905.794,-6660.76026,
177661.716,37738.847,4538.69207,
-180265.886,23734.8459,-1732.051,
161890.14,-81072.0518,-1222.94726,
-127618.564,128149.292,3847.78659,
79509.7391,-163234.44,-5913.24042,
-20433.9363,180548.062,7144.24965,
-39770.6774,-176503.186,-7339.19838,
93778.7343,154533.752,6667.31384,
-139407.883,-116329.169,-5367.23092,
170473.588,63213.9726,3571.92142,
-181048.522,-3784.99515,-1596.81788,
172658.091,-53897.9536,-241.974085,
-146539.076,107293.126,1943.74366,
102453.665,-150215.813,-3470.51552,
-47223.6262,174787.447,4620.99435,
-10831.0752,-180459.935,-5411.86164,
68891.8651,167933.32,5909.87781,
-121170.639,-135496.797,-5934.30721,
158362.733,87755.1251,5396.0286,
-177815.619,-32737.1039,-4364.57679,
179618.967,-26557.7548,2743.70652,
-160765.473,85054.0148,-531.081224,
123366.28,-132637.758,-1922.18561,
-74618.4958,164681.043,4292.21495,
17545.4421,-180611.862,-6357.3507,
43776.0888,176371.767,7712.76145,
-99060.1061,-151477.472,-8022.53453,
141934.74,111825.255,7288.06876,
143405.697,111700.942,7266.09277,
73721.4846,165537.54,7702.94353,
/* Thebe */
198691.544,-106764.272,-2389.97641,
-170196.857,148134.894,3318.53773,
133196.508,-182225.967,-2244.46589,
-89685.7944,206966.678,9793.571,
41505.6404,-221935.367,-3135.13621,
8510.37138,225333.003,12032.2228,
-58305.6955,-218062.37,-6067.59049,
105050.092,199620.374,9501.21157,
-146605.208,-171375.153,-9447.97348,
180927.555,134777.105,4598.52677,
-206095.163,-91110.748,-10240.0349,
221231.356,43470.1006,609.8545,
-225139.403,6852.32747,-6527.02093,
218038.575,-56319.4405,-860.073621,
-199978.585,103199.743,653.250239,
171974.925,-144870.061,-883.231219,
-135518.051,179032.631,7767.2391,
92156.4274,-204670.894,-1868.28247,
-44472.4066,219510.444,11237.0631,
-5582.13644,-223894.926,-5082.80528,
55111.4532,216660.628,9949.16716,
-101871.216,-198755.41,-9189.64768,
143474.248,170971.056,5831.26724,
-177673.633,-134312.332,-11096.3736,
203083.256,91444.1059,2083.81806,
-217996.944,-43488.3487,-8465.05683,
222088.756,-6075.44054,564.31243,
-214812.047,55566.0578,-1808.46967,
196703.111,-102064.397,492.261751,
-168714.676,143138.239,5601.3601,
-4716.80972,222074.599,9703.96683,
51239.6325,-216494.143,-4818.01826,
/* Adrastea */
59566.4956,114244.132,4764.52667,
-126047.699,27586.4643,-711.273858,
6659.99812,-128824.479,-4517.45136,
122521.534,40253.922,3088.03215,
-70922.9016,107599.224,3020.23406,
-85428.3053,-96419.5945,-4839.57633,
115601.914,-57270.1528,-373.876804,
24783.6851,126574.494,5049.39616,
-128660.397,-9384.16825,-2416.43649,
42796.8175,-121557.334,-3602.46188,
106219.972,72902.9417,4184.44217,
-98282.1197,83524.123,1401.17958,
-54752.6795,-116785.023,-4786.42273,
127145.038,-22042.8808,945.858611,
-12121.2888,128294.974,4392.57709,
-120711.677,-45075.1561,-3218.0185,
75139.1251,-104772.828,-2854.93253,
81436.3984,100004.187,4889.61603,
-118038.957,52187.9474,182.365499,
-19293.6524,-127413.867,-5015.12338,
128042.027,14560.6182,2589.08936,
-47540.5105,119805.084,3490.87638,
-103255.889,-77278.2844,-4323.50433,
101882.107,-79235.4487,-1179.59553,
49592.9766,118976.807,4794.54117,
-127795.359,16797.0608,-1164.99743,
17143.9806,-127704.066,-4273.03747,
118909.343,49964.4073,3352.85109,
-79646.7693,101538.812,2667.42429,
-76955.1452,-103430.027,-4924.30509,
41644.6533,-121980.988,-3581.00903,
-93623.5227,88575.1956,1606.54207,
/* Metis */
-47450.5527,-118710.436,-4854.72868,
-123085.498,-34794.0791,-2898.5195,
-102606.539,76660.3269,1400.40371,
-1275.63785,127927.765,4672.28529,
100622.805,78836.4152,4320.53227,
124015.587,-31770.1782,608.703035,
50007.5864,-117867.281,-3626.82331,
-63177.2538,-111137.627,-5062.85707,
-126677.425,-17713.3533,-2613.70701,
-91227.2449,89890.9307,1832.34382,
16149.0101,126911.661,4818.97795,
110431.073,64401.3033,4034.93835,
118538.258,-48338.5075,153.926998,
33509.4101,-123571.771,-3795.38752,
-77736.015,-101513.735,-4689.30519,
-127917.493,-318.029091,-1882.41719,
-78156.3444,101445.199,2405.41632,
33275.9454,123540.023,4768.64148,
118188.386,48779.5428,3322.00496,
110864.565,-63990.1788,-783.952675,
16395.1863,-126965.259,-4341.27433,
-90844.8152,-89990.8667,-4492.94613,
-126776.694,17082.3606,-1110.66074,
-63637.9871,111105.028,3208.77947,
49778.6818,117855.699,5082.28927,
123738.229,32232.3933,3024.89237,
101125.027,-78463.5366,-1362.59528,
-1025.1664,-128004.016,-4711.72147,
-102261.045,-76786.1248,-4399.38639,
-123270.364,34178.7734,-722.288847,
-20107.3853,126240.905,4320.31198,
-83763.3033,-96768.7054,-4550.42211,
/* Janus */
-125116.899,78479.4041,-28776.294,
-144014.029,42789.6676,-8128.64863,
-149830.647,3221.53234,13255.3285,
-142041.337,-36636.8035,33437.2462,
-121351.474,-73171.2127,50587.3787,
-89633.7655,-103067.538,63149.6449,
-49759.9561,-123610.69,69982.1051,
-5342.60056,-132930.206,70460.4099,
39590.1398,-130170.245,64534.8879,
80957.7657,-115568.618,52736.0589,
114996.334,-90437.5178,36127.9144,
138599.916,-57047.3139,16212.9642,
149603.827,-18423.4301,-5202.63829,
146983.842,21925.8188,-26171.9459,
130952.997,60326.2634,-44783.515,
102946.612,93271.4059,-59335.3056,
65496.2084,117742.325,-68490.4195,
22003.0215,131484.841,-71400.4263,
-23568.9851,133218.436,-67784.8375,
-67053.1798,122757.387,-57959.1624,
-104460.884,101032.407,-42808.6104,
-132347.843,70010.08,-23709.4355,
-148132.789,32516.7226,-2404.75533,
-150338.432,-8017.82876,19154.0777,
-138732.079,-47873.4529,38986.1775,
-114352.17,-83381.4692,55263.5362,
-79417.4644,-111263.412,66480.2872,
-37126.5264,-128935.392,71593.0273,
8634.57995,-134749.552,70118.9732,
53649.7294,-128149.738,62182.5601,
-62251.0676,-120624.344,68799.3465,
7409.13881,-133431.113,69620.1782,
/* Epimetheus */
69469.8685,-120859.908,57180.0992,
-139451.735,-42356.3796,36396.7619,
-47884.58,130539.943,-64477.5065,
144397.191,30956.3269,-30836.0456,
25511.9607,-131673.208,67317.061,
-151618.429,-9289.17006,20053.5785,
-12023.2477,133507.117,-69640.1236,
149295.287,-9856.05992,-9655.75249,
-13505.6594,-134199.191,72556.1235,
-149570.987,22303.3291,3070.34668,
33599.5512,127550.132,-71032.4067,
146010.778,-44987.5164,9330.18905,
-47792.9328,-124923.802,71053.4468,
-135796.946,60261.0576,-18461.1124,
72504.5823,115852.922,-68699.5316,
130808.908,-72403.4238,25409.9937,
-87216.7597,-103585.269,63651.2559,
-116521.378,91702.4229,-37082.042,
100395.016,96195.3088,-61037.1365,
101222.68,-101104.709,43601.1996,
-119404.282,-78663.0258,53617.4106,
-90806.7228,111216.613,-50010.7377,
127122.828,63599.3396,-46383.7927,
68175.2896,-123235.93,58644.9604,
-137160.333,-51700.943,41059.0295,
-50998.5457,126161.163,-61908.5774,
146619.236,28886.5012,-29880.6082,
35786.8216,-132283.225,66672.5761,
-147238.683,-13795.2332,21923.5753,
-9054.62253,134582.612,-70547.8949,
-149995.731,22183.357,3854.55007,
136530.884,-64013.4623,20825.1007,
/* Helene */
298674.54,-215519.724,83226.1872,
332458.795,143897.862,-106295.861,
-17067.6493,334645.439,-172828.741,
-348823.403,139767.105,-40692.5068,
-275566.557,-216175.196,139029.876,
114304.146,-323016.497,159347.084,
373040.702,-55477.0484,-6105.63279,
201329.123,273757.833,-164043.919,
-204735.29,288587.937,-132337.403,
-372000.504,-29626.067,52626.8953,
-111353.11,-315016.579,176801.341,
278639.966,-235293.145,95224.965,
347180.287,114648.424,-94689.2177,
13137.9976,334051.076,-175226.889,
-333733.101,167019.369,-54127.532,
-297097.442,-194384.485,129570.808,
83423.2565,-329205.785,163266.835,
368073.966,-85186.1857,9978.86249,
226107.464,258337.05,-156048.378,
-174808.221,302621.168,-142538.487,
-375878.224,-3270.54217,36884.0943,
-141914.173,-303090.955,173378.805,
256482.893,-254979.768,109983.87,
357106.253,88497.8793,-81732.5252,
47365.0474,329554.58,-178473.867,
-319113.533,189684.855,-67718.5464,
-315956.881,-167663.779,119678.45,
52576.1088,-333848.766,169071.001,
358765.419,-112908.754,23131.5568,
252658.567,238554.943,-148725.477,
-267734.955,-223623.861,142547.336,
-343134.386,151575.925,-45885.9219,
/* Telesto */
-270363.034,113284.32,-28175.9504,
-293883.934,-3802.58829,23988.3319,
-257735.138,-111330.881,89785.902,
-173595.579,-205632.197,119431.003,
-55012.749,-253116.743,140558.883,
74913.6324,-255403.086,127003.531,
189457.401,-207963.595,87210.188,
267582.926,-116123.69,40576.2973,
293207.121,-9498.65344,-30051.5383,
262822.673,109275.737,-76520.0959,
180059.986,196663.732,-124838.804,
64097.0909,252892.907,-137111.734,
-66103.0858,257747.621,-127140.312,
-183085.49,209597.863,-96371.9423,
-262863.009,128004.361,-35478.0364,
-294249.536,12026.4708,15542.5303,
-265815.168,-97097.3691,82311.7,
-187661.788,-194589.212,116623.858,
-72640.3848,-249846.056,138472.458,
57679.3814,-257412.866,131812.027,
175256.377,-217980.858,92194.1825,
259738.069,-129815.681,49339.2325,
293029.595,-25318.671,-21587.8676,
270269.351,94073.1305,-70384.07,
194037.276,186659.83,-119128.845,
81273.5058,247432.031,-138048.761,
-48441.7844,260936.052,-128538.965,
-168772.676,217981.352,-103546.477,
-254433.688,142000.159,-43126.1233,
-293481.696,28077.4826,7557.47534,
-71065.796,255220.114,-128459.621,
92922.7648,-252197.732,120797.267,
/* Calypso */
233087.759,145271.435,-106832.303,
135163.324,230052.849,-125152.616,
8785.98428,257596.083,-142736.945,
-117320.883,245371.929,-113351.986,
-221978.245,179763.248,-72626.678,
-283337.814,78929.0127,-17885.8326,
-288452.607,-31156.6936,51250.0692,
-239622.487,-145470.164,90931.1468,
-141770.487,-219243.1,136706.048,
-18654.4242,-262133.31,133204.893,
109603.974,-245537.307,120502.894,
216185.093,-184756.529,77415.2795,
280136.13,-90163.0288,14897.8658,
290972.96,29292.5535,-35773.4906,
243400.823,131789.123,-101186.412,
150674.092,221370.291,-123067.728,
26722.1027,256802.806,-141924.079,
-101048.839,249470.381,-119910.677,
-209726.327,192081.727,-77354.2352,
-278236.274,92865.493,-28030.9766,
-290910.35,-14850.6302,44212.0658,
-249524.274,-131870.41,84857.4647,
-157190.656,-211140.311,132522.068,
-36193.7554,-258989.138,135712.185,
92703.8602,-251528.818,122337.906,
203961.768,-194405.209,86431.052,
274189.225,-105715.022,21619.347,
293058.185,13779.1021,-27061.1394,
252908.339,118237.316,-94403.8043,
165558.341,211534.73,-121213.412,
281730.631,-84562.782,17626.5235,
-288153.307,61484.9776,-7055.89177,
/* Atlas */
107113.215,-80434.2703,31766.9956,
-137157.32,4607.01731,10894.9359,
105885.644,73279.7899,-48686.3181,
-27278.0984,-118407.08,64712.6232,
-63524.0416,110600.829,-51809.3384,
125927.944,-53350.7989,15744.8393,
-132036.125,-27749.5503,27358.3443,
79117.9396,96444.5441,-58231.0597,
9169.69007,-122024.285,63071.7491,
-93358.0364,93053.4236,-39716.3965,
135810.944,-22483.2998,-1394.05586,
-117549.964,-58137.9174,41881.2994,
46738.6146,112768.748,-63645.6299,
44967.0973,-116986.637,56957.3666,
-116570.399,68905.9909,-24806.4782,
136061.242,9978.8783,-18434.0741,
-94726.3031,-84402.7194,53433.7273,
11044.2458,121094.57,-64545.988,
77575.1095,-103651.445,46803.1525,
-131514.738,39871.2429,-8137.10351,
126661.085,41733.2822,-34166.6137,
-65183.9618,-104681.065,61196.2457,
-25433.4615,120831.482,-60868.2739,
104680.93,-82964.5363,33329.3173,
-137131.093,8008.53552,9109.41388,
108277.2,70527.6573,-47475.8079,
-31018.2992,-117534.666,64618.2801,
-60107.2423,111998.144,-52873.338,
124362.015,-56393.1776,17491.524,
-133021.111,-24422.195,25709.8249,
8444.89997,-122036.822,63148.6546,
5218.4778,-122051.125,63469.2453,
/* Prometheus */
138504.247,64.2171004,-13445.1855,
39590.7918,116972.876,-65127.1267,
-112388.171,76997.5739,-29463.8566,
-113236.933,-66587.5453,45856.5821,
38686.5167,-120307.522,59294.7854,
138676.846,-12650.212,-6799.56863,
52226.4461,112070.758,-63781.9545,
-104685.682,85544.2979,-34688.1606,
-121098.103,-55738.4035,40932.865,
25259.6116,-122165.244,61568.3708,
137513.639,-23711.7275,-890.726663,
65180.4485,106524.673,-62130.1712,
-94762.3709,93692.8302,-39918.858,
-126797.447,-45597.7855,36171.0804,
11402.432,-123615.789,63670.2603,
134347.022,-35643.9577,5668.36021,
75958.5293,100441.31,-59986.159,
-84414.2011,101574.638,-45050.9322,
-131519.897,-33659.893,30372.9345,
-1113.88311,-123474.756,64808.3294,
130727.206,-47355.726,12155.8095,
87168.8145,92344.6475,-56829.033,
-74040.0619,107436.104,-49126.8667,
-135653.742,-21884.8565,24603.1293,
-15285.4455,-121882.649,65346.3191,
125733.831,-57429.652,17918.0367,
97610.7908,84217.5602,-53581.5684,
-61444.0089,112938.909,-53230.0141,
-137641.859,-10704.9511,18937.398,
-28633.645,-119888.15,65593.7292,
-130694.527,-37115.3811,32103.6802,
6000.66168,122877.448,-64968.5345,
/* Pandora */
-124015.493,-55062.9024,40861.3985,
-139277.835,-17804.1807,22815.7906,
-140567.83,21949.7333,2109.74845,
-127627.949,58906.028,-18508.2444,
-103202.471,89116.0501,-36703.3711,
-70403.502,111000.443,-51346.7042,
-31099.8397,123573.823,-61740.9463,
12496.4027,124953.715,-66685.4836,
55824.1357,113666.021,-64966.2371,
93069.7844,90897.6575,-56642.2119,
120273.444,60236.1464,-43209.8185,
136306.517,25120.8147,-26361.9726,
140764.083,-12383.5676,-7141.39928,
132345.368,-49987.8845,13378.3655,
110367.289,-83580.5821,33109.0213,
77151.985,-108496.756,49381.3143,
37495.4673,-122198.345,60400.9027,
-4303.29811,-124729.528,65774.6621,
-45752.0667,-116624.321,65541.0881,
-84306.6649,-97660.6627,59337.4665,
-115646.411,-68388.4067,47033.5418,
-135178.713,-32010.8318,29863.1181,
-140953.346,6519.31701,10232.5788,
-133945.468,43238.0834,-9686.54647,
-115574.841,76059.7841,-28663.8879,
-86361.4086,102957.218,-45586.8502,
-47688.9771,120627.092,-58590.5198,
-3786.03685,126039.145,-65677.5976,
39482.0308,118824.635,-66086.912,
77718.8917,101065.757,-60483.8256,
92611.7975,-97689.014,42221.0912,
-133048.029,46757.2254,-11617.4684,
/* Pan */
-133061.869,2659.93804,11495.1964,
80318.1499,-97549.9526,43335.2025,
39007.3388,111575.424,-62242.2322,
-125995.906,-33112.6916,29553.0295,
108541.13,-72801.7672,27633.8128,
-1111.33745,118365.11,-61912.3887,
-107240.231,-65810.7389,44871.1756,
126694.153,-41298.4863,9368.01745,
-41126.881,114171.56,-55841.2626,
-78535.2044,-92403.6389,56023.9371,
133093.034,-5962.16476,-9766.19863,
-77325.2966,99387.0922,-44586.4426,
-42542.7942,-110423.216,61980.218,
127143.535,29925.8903,-27996.1921,
-106349.468,75380.1028,-29197.8246,
-2602.48687,-118198.249,62185.909,
109398.317,63037.8455,-43625.5355,
-125506.918,44379.8853,-11097.4775,
37578.7076,-115007.424,56621.2779,
81502.9036,90299.3966,-55210.2104,
-133020.411,9260.66616,8031.31894,
74272.4372,-101145.566,45805.3515,
46045.115,109185.131,-61669.7746,
-128192.379,-26716.9361,26415.2786,
104074.806,-77900.7375,30737.1192,
6314.36712,117939.729,-62410.3135,
-111470.95,-60214.5247,42348.4315,
124222.097,-47426.0282,12819.583,
-34001.3802,115752.95,-57358.695,
-84407.3417,-88126.1448,54351.0119,
-126329.124,42277.1934,-9917.46286,
111546.872,60107.2928,-42299.9379,
/* Daphnis */
98941.6699,79021.6064,-50991.2167,
15493.8819,119508.483,-64120.0303,
-75252.668,103716.743,-47055.2761,
-130564.045,39072.0335,-7829.26222,
-124376.082,-43975.6971,35089.8209,
-59610.3815,-106305.998,61477.4391,
33222.4435,-118573.468,58910.0584,
110414.823,-74999.0347,28604.3795,
135607.088,3903.54923,-15178.3266,
96924.2041,80965.2962,-51814.2744,
12597.7814,119891.247,-64040.0463,
-77658.0586,102357.255,-46109.9834,
-131347.451,36615.4416,-6466.18556,
-123172.71,-46375.4265,36230.7152,
-56981.8707,-107520.756,61859.3289,
36037.9796,-118026.141,58350.5593,
112086.549,-72949.5021,27368.5847,
135352.179,6486.82524,-16507.2536,
94863.8179,82870.4145,-52612.9636,
9696.91785,120219.88,-63931.2378,
-80029.7062,100950.621,-45143.2561,
-132070.675,34140.4295,-5099.28541,
-121912.501,-48752.9588,37354.4734,
-54329.3446,-108685.541,62212.707,
38837.0113,-117425.765,57764.8628,
113708.49,-70865.3633,26119.4788,
135034.437,9068.28196,-17829.142,
92760.4742,84736.2631,-53386.9149,
6793.67018,120493.682,-63793.4679,
-82365.618,99498.3931,-44156.1001,
82367.8056,-99496.5472,44158.319,
62537.5648,-109861.647,51509.7513,
/* Cordelia */
-13784.7236,9575.57825,46825.6472,
-28258.9911,529.50475,-40945.6277,
48581.4072,-10148.0049,3622.19787,
-31596.5622,11939.1326,36513.0746,
-9694.81151,-4689.66894,-48580.5571,
43469.4195,-6343.40728,23363.0101,
-43909.0653,12323.6861,19857.7571,
10593.0542,-8966.03378,-47790.0671,
30838.3527,-1309.77677,39015.9777,
-48589.6161,10660.9573,-258.569624,
29048.1432,-11660.2602,-38688.8296,
12851.9541,3897.86513,47895.9321,
-44862.8893,7038.13028,-20325.5106,
42419.0543,-12460.4827,-22839.71,
-7382.12393,8307.84163,48482.7937,
-33354.8929,2121.59206,-36864.0339,
48410.1633,-11090.9572,-3026.38633,
-26318.3432,11350.7364,40653.32,
-16014.4969,-3044.07957,-47018.5034,
46017.7784,-7661.71346,17282.3901,
-40671.695,12531.0036,25756.8424,
4126.21906,-7636.78996,-49002.4762,
35633.927,-2934.05035,34583.7773,
-47994.2397,11442.6936,6395.57149,
23519.1528,-11031.8396,-42443.7864,
19046.5668,2172.29006,45897.888,
-47002.8481,8279.14266,-14076.504,
38811.1789,-12526.5034,-28505.1472,
-829.321048,6955.72687,49245.2656,
-37814.357,3785.81517,-32127.6699,
-48500.4739,9949.78983,-5025.69754,
-3831.32347,7657.91155,49014.7606,
/* Ophelia */
51886.1236,-10442.3481,6359.74679,
-41530.9423,4293.78791,-34730.7905,
16044.2171,3491.6888,50683.3118,
15692.2037,-10507.7724,-50727.9206,
-39684.2145,13366.8796,33520.5369,
52288.3802,-11794.2231,-2740.24442,
-47007.404,6676.80801,-25940.4992,
23971.9264,1316.84732,47576.6456,
5538.54122,-8612.38548,-53336.187,
-33043.403,12800.3927,39802.2224,
51007.0592,-12911.2131,-12599.606,
-50271.7279,8651.99416,-16691.4135,
31715.351,-957.586772,43247.3928,
-4865.90592,-6331.55627,-53537.1808,
-25974.384,11952.7898,44953.9914,
47482.4382,-13563.129,-22604.0249,
-51742.3025,10224.0954,-7737.62582,
39165.8943,-3402.28859,37130.5051,
-14447.223,-3959.26993,-51574.4332,
-18056.0856,10789.0494,49306.9907,
41797.1701,-13584.3957,-31640.3807,
-51995.4441,11517.387,955.248959,
45518.9911,-5897.91943,29023.6916,
-22766.1402,-1695.02042,-48191.6564,
-8846.29536,9190.92083,52520.5208,
34742.1029,-13023.3248,-38875.9755,
-51118.7326,12600.614,9912.83487,
49870.0442,-8181.42224,19524.102,
-30136.944,480.103425,-43903.6823,
1433.09067,7121.42225,53812.6324,
21964.2079,1986.02504,48705.7396,
9470.37077,5249.97768,53036.7993,
/* Bianca */
-53681.6091,8681.0567,-23197.0773,
-34990.226,14156.2022,45589.3271,
35127.854,-1127.68907,47612.9062,
53627.8142,-14723.0351,-20073.6101,
-6355.69036,-6799.21228,-58481.3982,
-57019.8099,11103.9076,-11028.0325,
-24241.501,12752.9667,52451.3545,
44209.0413,-4298.1958,39126.7533,
47728.5929,-15015.7974,-31486.0614,
-18582.634,-3786.80891,-56095.3105,
-57667.3924,13009.4576,1658.90837,
-12349.337,10756.8005,56846.1484,
51211.809,-7268.56621,28803.9274,
39574.8834,-14608.4853,-41412.0393,
-29938.9237,-599.560323,-51076.576,
-55595.9197,14308.3794,14265.1276,
127.518085,8260.98912,58564.324,
55809.1632,-9899.75552,17130.2132,
29551.4228,-13520.2134,-49382.3674,
-39891.4397,2613.28209,-43659.3617,
-50905.478,14940.1658,26196.9077,
12601.5691,5382.57884,57522.3283,
57786.847,-12068.7446,4653.76808,
18131.8414,-11802.4544,-55020.7602,
-47971.9654,5701.08603,-34190.1636,
-43819.358,14875.8651,36893.5213,
24484.3309,2256.93132,53766.9978,
57052.9155,-13674.1706,-8040.33029,
5855.84541,-9536.54828,-58061.8743,
-53799.1327,8518.82156,-23112.1219,
25744.1718,1657.06508,53276.2946,
-56904.5466,10943.5926,-11945.9244,
/* Cressida */
-32178.7695,14106.4224,50783.3534,
-28325.4032,-1420.73172,-54845.0543,
60322.7767,-12686.4047,3703.55793,
-31578.7504,14016.8617,51208.4535,
-29035.8924,-1206.85374,-54527.8974,
60373.222,-12829.3418,2833.31996,
-30813.0221,13923.9717,51691.8444,
-29757.7326,-993.127792,-54097.2907,
60340.5813,-12930.0048,2053.39598,
-30188.6224,13842.5552,52067.1628,
-30407.8523,-812.117041,-53769.8084,
60384.7991,-13042.547,1238.47266,
-29444.5719,13733.3035,52551.192,
-31160.0384,-569.164986,-53325.0422,
60325.9725,-13165.6116,397.210338,
-28762.3313,13654.3305,52904.0024,
-31772.2843,-407.791329,-52960.5244,
60342.7668,-13249.7805,-360.411048,
-28064.0902,13538.919,53358.2775,
-32523.3087,-157.099055,-52526.3733,
60279.2765,-13385.041,-1248.71883,
-27314.2366,13449.742,53717.0929,
-33132.3004,10.5297439,-52106.1223,
60249.4466,-13456.981,-1975.60963,
-26657.8579,13341.217,54117.3783,
-33846.9123,242.122366,-51693.9471,
60195.8627,-13584.9333,-2873.24395,
-25859.4655,13231.1985,54498.0846,
-34482.3552,438.948554,-51216.5358,
60111.4832,-13663.8605,-3611.27298,
58699.786,-10647.8182,15968.0883,
-14450.8723,11339.2758,58951.1312,
/* Desdemona */
-36525.521,825.616354,-50898.6828,
52583.4324,-6981.94442,33343.0761,
-60614.2517,11779.4593,-10617.9979,
59307.6025,-14820.7178,-13733.299,
-48830.0499,15794.1103,35942.8552,
30912.3775,-14006.2425,-52669.1311,
-8190.71207,10281.3997,61262.2681,
-15802.2909,-5023.10337,-60423.4334,
37303.1712,-1289.02381,50327.1583,
-53134.4642,7086.85216,-32443.6773,
60762.5732,-11923.9129,9586.04684,
-59009.5248,15074.5349,14726.5296,
48247.6622,-15584.204,-36818.5264,
-30003.1113,13965.5588,53208.5877,
7147.92833,-10169.9258,-61415.9807,
16756.5833,4576.45728,60206.1242,
-38155.6572,1390.73199,-49686.7472,
53641.1972,-7340.12363,31549.2806,
-60856.6357,12236.1817,-8567.60538,
58772.8133,-14954.814,-15773.6276,
-47578.5468,15678.9989,37645.4622,
29085.8586,-13887.4062,-53739.2621,
-6155.31893,9786.34053,61588.2569,
-17794.1233,-4506.70464,-59915.3021,
38950.3411,-1718.60331,49058.1823,
-54113.2365,7679.3357,-30652.3906,
61004.9098,-12206.3902,7495.11616,
-58438.1274,15182.5489,16769.852,
46917.3654,-15649.7399,-38478.2067,
-28200.0994,13605.9148,54280.0691,
-59383.0896,10711.48,-16861.7004,
57258.6248,-15305.7583,-20311.5624,
/* Juliet */
-18447.6065,-4454.56752,-61479.7013,
61505.4216,-15066.0869,-11657.6113,
7836.00284,7083.20141,63445.9682,
-62895.808,13819.414,583.460766,
2980.85386,-9520.04307,-63544.0418,
62329.3777,-12230.2582,10514.3043,
-13765.9921,11569.1982,61785.8026,
-59890.1247,10173.2063,-21226.0554,
24187.5358,-13337.757,-58156.013,
55680.8276,-7809.49251,31241.5677,
-33900.9893,14784.6177,52719.3908,
-49822.9105,5335.87675,-40325.6864,
42598.0076,-15670.5224,-45669.1437,
42502.7909,-2640.59244,48232.9831,
-49960.6965,16065.7317,37251.608,
-33890.0251,-221.129896,-54732.1717,
55758.6857,-16088.0665,-27750.6599,
24175.3574,2982.40024,59612.5939,
-59906.6017,15571.2333,17477.5309,
-13699.3608,-5654.87189,-62664.0368,
62314.6292,-14529.0449,-6692.94179,
2858.98818,8255.05543,63769.4231,
-62857.41,13160.6609,-4358.24112,
8021.08085,-10521.4655,-62957.438,
61496.774,-11379.8291,15338.7058,
-18628.2894,12403.9617,60297.751,
-58263.0454,9136.77964,-25861.4034,
28661.1414,-14034.2594,-55855.2376,
53228.2131,-6693.03662,35577.8684,
-37889.4336,15244.0097,49742.0671,
50311.6986,-16072.1406,-36725.0668,
12498.5035,-11324.514,-62080.0515,
/* Portia */
-1143.39186,9384.3155,65416.2223,
-64251.7638,12787.4752,-8765.87415,
12343.585,-11500.4759,-63906.5138,
62077.9938,-10910.781,19899.3632,
-23112.0511,13532.9697,60427.2617,
-58089.7281,8416.70884,-30390.2451,
33246.1966,-14855.8898,-55162.2878,
52278.8031,-5969.78605,40002.7907,
-42310.007,16021.07,48188.7461,
-44946.261,3071.31568,-48367.0995,
50146.3632,-16461.1388,-39791.1276,
36210.0775,-280.778846,55296.25,
-56432.4244,16557.0734,30168.1179,
-26400.0297,-2619.48057,-60539.123,
61021.6882,-16107.6474,-19637.8351,
15793.4474,5454.43719,63949.2893,
-63781.104,15099.6108,8522.51776,
-4680.78417,-7998.24804,-65442.8502,
64572.7085,-13811.476,2875.49278,
-6525.1798,10520.558,64926.3731,
-63467.2562,11849.6433,-14150.5749,
17594.7996,-12442.4228,-62485.3243,
60377.0846,-9827.24983,25037.9997,
-28065.0166,14289.9928,58112.5912,
-55525.6696,7212.22919,-35126.1093,
37746.46,-15427.273,-52020.9532,
48940.1267,-4629.11166,44186.0002,
-46239.4713,16310.6015,44326.1974,
-40910.6215,1738.29985,-51886.2817,
53359.699,-16584.3665,-35306.2012,
-58488.4907,16361.1052,26084.0607,
-7535.50739,-7369.0232,-65251.5328,
/* Rosalind */
-48425.0648,3753.81367,-50293.1127,
68232.3825,-15278.7404,-1340.98494,
-43428.232,16627.9655,52214.828,
-9730.92775,-7275.43654,-68868.3091,
56660.6762,-6667.14165,40428.3005,
-66451.0847,16385.7989,14344.8727,
32710.2861,-15589.6231,-59806.2472,
22302.6798,4453.62491,66123.479,
-62781.0439,9816.4006,-29196.2506,
62185.1249,-17491.1965,-26761.4741,
-20935.2762,13534.3624,65339.2618,
-33956.6101,-886.729374,-61113.3467,
66773.3452,-12161.9656,16867.2611,
-55841.5385,17382.4289,38312.6314,
8321.98799,-11445.3406,-68492.4737,
44538.3765,-2111.7571,53849.8797,
-68301.9331,14512.6195,-4002.52956,
47381.7632,-17263.6273,-48420.8794,
4491.23917,8523.55152,69276.4457,
-53405.6039,5649.20223,-44758.8038,
67500.716,-15930.8155,-9060.77431,
-37374.484,15911.8115,56896.7064,
-17233.66,-5708.07308,-67548.24,
60513.9833,-8360.04713,33990.7247,
-64219.9183,17182.8143,21746.9464,
25901.0591,-14627.1583,-63264.4681,
29279.8769,2301.66522,63480.0586,
-65333.575,11412.2636,-22103.9764,
58746.0309,-17447.0384,-33715.0138,
-13649.0196,12179.025,67474.7713,
12746.5066,6512.51868,68458.2188,
-62005.5293,9444.81338,-30933.3833,
/* Belinda */
-63888.9413,8645.24108,-38806.751,
-32887.2322,16315.2158,65698.2653,
67481.4069,-10417.1227,31666.9983,
25534.8119,-15150.2424,-69160.3684,
-70261.3342,12033.0832,-24121.3126,
-17901.1443,13843.139,71763.0301,
72197.4725,-13498.6137,16349.7063,
10083.6632,-12416.3813,-73535.0811,
-73308.3901,14849.975,-8369.54811,
-2089.01287,10832.0463,74453.7875,
73525.5111,-16061.9123,252.367738,
-5909.69424,-9084.67269,-74465.242,
-72864.3007,17076.4295,7810.76639,
13783.3142,7207.89916,73624.7484,
71383.3157,-17865.0651,-15789.9177,
-21545.3953,-5231.4968,-71927.0021,
-69043.0693,18408.133,23640.6216,
29063.6647,3218.27178,69341.1142,
65880.5595,-18718.3663,-31166.8114,
-36194.4977,-1219.78002,-65958.2572,
-61972.9707,18843.4511,38308.9301,
42939.7662,-790.423052,61808.3482,
57296.5602,-18785.4378,-45047.3545,
-49189.0879,2828.17574,-56889.7444,
-51926.416,18509.9683,51220.3124,
54800.2247,-4856.54759,51333.8961,
45997.2441,-17998.2304,-56770.5137,
-59787.5989,6844.58885,-45196.1883,
-39505.9021,17235.3601,61703.3378,
64096.4145,-8740.48114,38469.5629,
-72343.9012,17363.2167,11273.3003,
-10066.2365,12376.706,73549.5167,
/* Puck */
-27541.9945,-5768.98513,-81267.163,
6361.30331,-12686.7611,-84830.3148,
38855.2187,-19219.0632,-74277.396,
65298.9405,-21209.5096,-51801.7771,
80866.9054,-20712.8917,-20697.4436,
83312.8248,-16368.4604,13694.6635,
72169.3442,-9251.69801,45863.7712,
49085.6984,-1270.30579,70605.2396,
18238.073,8053.24516,83666.2568,
-15938.6713,14547.2121,83251.3088,
-47104.0572,20412.5304,69003.3649,
-70994.5078,21123.8255,43711.851,
-82885.8341,20097.3192,11059.1271,
-81565.576,14340.0855,-23216.6994,
-66671.5507,7278.23072,-53834.0097,
-41018.9206,-1504.23994,-75581.2191,
-8641.49604,-10068.4435,-84974.5572,
25244.0559,-16404.0906,-80562.2065,
54797.7581,-21141.2877,-62830.4124,
75694.5788,-20945.1043,-35039.5776,
83860.7912,-19060.3581,-1282.92933,
78704.2287,-12234.2066,32439.2264,
60324.039,-5154.25687,61086.0881,
32387.8015,4266.48766,79560.3926,
-1056.31048,11882.1555,85170.7784,
-34218.362,18167.0518,76789.4907,
-61783.7018,21426.8855,55855.1114,
-79372.2866,20682.1997,25878.9723,
-83760.3827,17569.8223,-8490.51491,
-74781.54,10162.2119,-41245.7683,
4736.5961,-12772.3701,-84920.2776,
16221.4527,-15586.0068,-83010.4571,
/* Perdita */
-67427.2538,18995.543,34871.2631,
66495.9046,-19940.9083,-35420.6042,
-63463.8514,19770.4835,37921.6048,
59974.8815,-18745.5224,-43249.0745,
-58253.1717,18716.5726,47731.6053,
57775.9923,-19832.3874,-49071.4577,
-55912.3941,19804.684,49672.1301,
51781.3779,-18346.4561,-52784.119,
-47689.0118,17717.1003,57439.1102,
45960.269,-18699.5609,-60320.2777,
-45200.6122,19056.1172,60806.9667,
42233.9532,-17562.2353,-61642.1921,
-36916.3702,16330.8921,64599.7635,
32743.026,-16769.5475,-68024.8678,
-31513.1017,17315.413,69612.3976,
30290.3533,-16148.5678,-69631.4384,
-25811.4854,14670.6491,70284.9723,
19767.269,-14453.2276,-72478.4793,
-16392.5942,14724.9261,74728.8624,
15717.1577,-13869.0536,-75405.6364,
-13363.287,12556.7593,74803.3922,
7475.65845,-12003.1831,-74810.3215,
-1783.01823,11712.5362,76145.8601,
-280.091569,-10779.2143,-77535.712,
1069.18008,9731.88485,77255.9519,
-4922.76668,-9335.30991,-75738.8237,
11293.4136,8667.81637,74983.1518,
-15675.0057,-7266.68672,-75727.8925,
16773.7716,6172.60034,76277.5156,
-18364.3916,-6172.70552,-74823.0339,
-60622.8525,18886.8574,43510.8832,
48094.2517,-2791.40519,59846.858,
/* Mab */
95963.8264,-20699.1367,2499.98291,
-62595.6568,3288.76502,-75299.8282,
-13533.9238,16150.5656,95252.9409,
79519.4754,-24389.3344,-50509.4581,
-91899.2585,16187.4008,-28112.9224,
41784.8688,3160.32987,88439.1536,
38097.4702,-20607.3246,-88105.0515,
-91627.2256,23696.5345,25905.8318,
80954.0382,-10294.3357,53812.011,
-15210.03,-9913.41315,-95674.3793,
-60236.6008,23265.3467,72838.5249,
95390.4073,-20940.4691,-634.953166,
-65305.4322,4123.92684,-73042.7099,
-10840.4267,15782.3275,96313.9521,
79213.752,-24615.8404,-52084.7485,
-92137.7742,16405.7835,-27443.7118,
42627.9592,2763.94089,87429.9806,
35521.4751,-20031.7568,-88541.3428,
-90345.0889,23802.9869,29233.4136,
83019.9125,-11024.1742,51251.3628,
-17383.1663,-9572.97679,-96076.1864,
-59736.4522,23357.4623,73722.7865,
95048.9757,-21059.0481,-1472.73067,
-66181.1991,4641.22616,-71247.7687,
-7673.34646,14999.3084,96231.4469,
77312.416,-24543.9679,-55152.0575,
-93436.1384,16947.5192,-24984.529,
44135.0413,2509.98805,87370.8965,
34848.626,-20007.8728,-88835.2624,
-89349.1089,23814.4515,30302.212,
93602.8485,-22508.2785,-14900.7445,
-52875.2593,59.2571497,-82503.0894,
/* Cupid */
30339.6657,-15857.5824,-66230.9907,
-68323.4354,10992.9931,-27456.9644,
-19830.1691,14213.0156,70252.639,
71195.1537,-13162.3726,16897.3025,
9198.34716,-12289.0588,-72795.1018,
-72699.6356,15119.2898,-5942.99505,
1996.02091,9974.96387,73896.9652,
72518.9907,-16791.9841,-5686.16222,
-13557.1287,-7246.88925,-73047.8407,
-70281.6092,17962.8619,17306.1644,
24527.3416,4338.33837,70183.6536,
66351.9536,-18568.4413,-28023.4878,
-34447.855,-1472.84653,-65867.061,
-61222.0358,18730.391,37860.8025,
43709.8145,-1374.93706,60276.7428,
54677.6122,-18488.2998,-47220.9796,
-52397.3612,4263.33188,-52994.9331,
-46399.5709,17762.1762,55722.6034,
59777.4117,-7033.8999,44065.7423,
36901.3998,-16591.1759,-62550.86,
-65328.6508,9494.82691,-34308.8848,
-26972.6628,15148.8275,67605.9942,
69343.0704,-11688.5297,24194.4229,
16588.7881,-13475.6214,-71313.5857,
-72047.1262,13750.0486,-13350.3443,
-5349.21535,11435.8943,73560.0397,
72990.0595,-15610.7878,1676.02363,
-6319.41142,-9002.5698,-73798.7369,
-71847.673,17069.0794,9980.33692,
17431.626,6359.29595,72066.0942,
-63594.8018,18489.4849,33784.6805,
41185.8177,-17315.1096,-59724.3568,
/* Triton (rock) */
-207216.715,208923.936,198147.931,
248511.285,215553.9,132793.514,
283304.714,-130359.695,-169123.163,
-158984.931,-257366.232,-185310.432,
-330422.675,38203.7306,123334.742,
55274.4508,267869.826,225929.473,
344228.613,57122.3736,-64043.5318,
51912.614,-246079.875,-250210.206,
-323791.98,-144889.204,-4050.87002,
-151466.753,194544.417,255072.921,
271839.458,215197.112,75170.2776,
233352.214,-119046.486,-239231.245,
-194259.996,-260069.778,-143103.056,
-289361.489,28046.2651,203307.595,
99669.6368,274300.403,201694.897,
314223.851,68327.2944,-149841.829,
1757.8817,-256010.393,-245578.914,
-305921.29,-159257.56,83062.1773,
-99109.6754,206909.377,270591.104,
266061.689,234513.62,-8511.39501,
182181.048,-132021.419,-274291.196,
-199519.464,-285458.295,-67498.3541,
-242276.152,39309.35,256142.641,
114051.464,306076.211,138444.055,
273380.553,61364.3617,-217610.453,
-19281.5448,-293538.529,-198280.034,
-272573.399,-159067.23,162024.893,
-74155.5727,248640.951,241938.68,
240491.852,243189.014,-94236.7055,
155963.088,-175585.361,-265892.054,
-59167.7224,-349772.974,3395.08238,
286058.601,178136.157,-110886.51,
/* Naiad */
-40042.9882,11074.0061,24523.0917,
23860.3974,41925.4857,598.229679,
32653.9392,-29605.2294,-19595.5597,
-38741.8076,-28601.9329,2584.69673,
-15860.0511,39701.2199,22292.6716,
44046.1851,13830.7104,-13886.2198,
-1027.22741,-45563.1148,-15726.0874,
-43496.5737,3982.91812,20428.9511,
17453.2749,44578.0671,5866.58771,
37780.9934,-22684.5017,-19625.6208,
-34101.2688,-34053.5435,-2233.65365,
-22167.7807,34494.1744,25415.4984,
40762.8365,22133.3181,-13222.1813,
8086.15658,-45167.7071,-14823.199,
-46010.6415,-2489.00944,14185.5479,
11817.6312,44773.3079,13411.3838,
40168.7095,-14114.5388,-22624.9034,
-26950.0963,-39900.1412,-2695.69559,
-29714.4964,29988.4172,23332.5234,
38228.8988,28424.3527,-7615.70108,
15548.8024,-42055.4084,-17806.0773,
-45801.7305,-10413.8972,10983.7074,
4529.29591,44509.3841,18007.429,
41849.5248,-5493.08483,-23308.3469,
-18993.5961,-44183.7051,-3356.50941,
-36433.314,24848.5123,19479.4091,
35334.8291,32808.2884,236.772451,
21035.8449,-36620.7525,-23290.8968,
-42727.6261,-19242.7801,11449.6215,
-4603.79496,44641.5533,17704.5514,
-43507.3536,-699.766776,20758.8852,
43354.5904,18903.7424,-9370.66011,
/* Thalassa */
-46083.4461,-14057.8965,13682.0786,
33802.784,36936.3942,-901.864959,
-10317.0176,-47369.2782,-12495.5487,
-16819.8897,42120.8851,21224.58,
38081.8484,-22601.6636,-23398.6061,
-46801.0121,-4316.7594,17267.8789,
39747.2098,29915.7605,-5634.60659,
-19407.1383,-45487.434,-7897.79217,
-7304.25467,45748.2619,19027.1589,
31774.3802,-30859.0271,-23340.3952,
-45403.3072,5439.68061,20393.4976,
44038.5931,21600.9103,-10123.9298,
-27811.1684,-41522.5783,-3193.23843,
2290.49096,47537.8313,15535.1552,
23921.5795,-37577.4362,-22873.7815,
-42276.0909,15207.9339,22136.3,
46272.9291,12440.4989,-14534.151,
-34996.2685,-35769.1955,1532.46703,
11862.7772,47253.4561,11595.9858,
15161.0351,-42877.931,-20974.8506,
-37074.704,24103.4785,23477.2765,
46745.7231,2620.47357,-17744.7932,
-40562.2953,-28627.1372,6607.54833,
21034.5826,44860.1908,7275.65057,
5723.75504,-46240.9954,-18315.2483,
-30491.7509,32078.0843,23424.7791,
45006.4734,-7176.43986,-20772.2616,
-44600.6345,-20013.2635,10839.1651,
29061.2168,40706.0664,2228.57606,
-4026.97922,-47581.1072,-15095.1928,
-31408.4562,-39001.8306,-717.417422,
42031.5775,26050.9463,-7842.06542,
/* Despina */
47600.9744,-6235.20218,-21339.0603,
40450.4924,-23068.0463,-24295.5401,
28268.4614,-36973.072,-24323.7544,
12646.6042,-46359.7316,-21205.7842,
-4599.19552,-49993.323,-15481.5285,
-21326.2524,-47349.2449,-7926.51176,
-35311.9014,-38866.2278,731.695244,
-44915.0928,-25586.3771,9273.211,
-49020.3936,-9076.78986,16557.8558,
-46974.8216,8556.82058,21916.2662,
-39063.3454,25107.0928,24547.517,
-26379.1237,38550.0926,23995.7431,
-10395.3756,47188.3227,20586.5351,
6929.75499,49974.5035,14648.962,
23353.4824,46572.9012,6735.76397,
36875.6522,37346.4413,-1912.00252,
45834.0757,23496.7054,-10248.4572,
49074.0826,6774.69691,-17468.8081,
46238.0053,-10853.8391,-22460.1805,
37661.7148,-27151.7737,-24566.5054,
24372.726,-39990.9646,-23759.4057,
8101.06879,-47895.5169,-19969.3449,
-9169.32226,-49910.0154,-13595.5108,
-25377.3308,-45650.9543,-5651.70097,
-38388.8883,-35716.5607,3008.91386,
-46573.7196,-21421.4442,11393.4282,
-49056.6191,-4424.15979,18247.0495,
-45441.8203,13164.1051,22846.4503,
-36099.7274,29069.0978,24721.9185,
-22338.2287,41365.1595,23406.0399,
-44943.8659,14364.9232,23065.2664,
-34807.7034,30656.193,24640.4671,
/* Galatea */
57151.7854,-2226.45937,-23814.757,
-25518.7139,49364.2108,27384.7611,
-27641.3155,-54873.7273,-7947.86974,
57505.923,14132.6767,-18204.492,
-38877.5686,38485.056,29079.9588,
-12519.366,-58680.1666,-15430.7223,
53326.8028,29443.362,-11287.7235,
-49203.3334,24622.44,28479.8179,
3639.77039,-57950.1143,-21598.4948,
45006.6265,42436.0195,-3465.80177,
-55740.4557,8867.39167,25539.4951,
19491.7379,-52692.5722,-26115.5398,
33213.5064,52079.2919,4744.0455,
-57916.998,-7589.45698,20650.519,
33775.8584,-43280.1596,-28705.0515,
18811.3461,57681.8793,12540.4938,
-55525.8145,-23485.5214,14261.4655,
45454.9843,-30505.4937,-29007.9252,
2907.60984,58816.7183,19244.5194,
-48823.0895,-37543.044,6700.00373,
53621.9753,-15399.3034,-26942.2481,
-13212.5306,55340.6243,24511.1702,
-38361.7663,-48627.2416,-1481.22875,
57581.1109,941.990927,-22834.651,
-28253.8141,47519.3467,27965.8709,
-24872.5591,-55940.571,-9481.88577,
57013.8328,17241.1196,-17046.5535,
-41116.7309,36011.6522,29164.0524,
-9403.58455,-58929.1917,-16650.6989,
52025.734,32160.6313,-9853.93307,
45839.7098,-29961.8587,-28972.415,
-17916.686,-57884.87,-12900.8115,
/* Larissa */
32247.3642,65337.7586,10010.5953,
62378.5762,37111.8087,-12478.2663,
67176.2608,-6605.56731,-29304.1648,
44597.4185,-47216.8385,-34326.4395,
4199.64347,-68671.0881,-25797.9928,
-37916.966,-62780.298,-6245.73164,
-65099.9447,-30861.1733,15250.6256,
-65263.3679,13329.9291,31123.4919,
-39332.9569,51930.5738,33917.4088,
2362.80144,69755.7768,23149.5326,
43621.4144,59245.6774,3278.18121,
66798.6056,24610.759,-18678.2807,
62965.5365,-20021.9602,-32127.598,
33713.01,-56186.8041,-33228.8355,
-9178.0318,-70020.3555,-20723.8768,
-48562.9736,-55362.2429,551.381833,
-68172.8463,-17871.484,20987.8167,
-59843.1249,26237.9691,33535.5001,
-27857.2348,60070.4038,31955.0486,
15882.9308,69661.3234,17832.6141,
53246.7297,50687.4922,-3699.59402,
68528.9145,11354.6318,-23954.0858,
56536.9083,-32510.4425,-33812.4016,
21454.9461,-63251.8386,-30884.4418,
-22441.7777,-68588.1103,-14701.3779,
-57166.0468,-45705.4904,7227.87883,
-68588.0999,-4518.27651,25879.1778,
-52338.8847,38222.3549,34692.9427,
-15052.5506,66087.2195,28775.4165,
28872.8007,66695.8379,11727.2575,
-56289.1167,-46796.3993,6712.77489,
-66183.5258,-26872.661,17189.4883,
/* Proteus */
99257.432,60316.7626,-19027.8784,
-15740.5047,108002.191,43958.2867,
-108475.376,4223.09478,45183.2943,
-49327.2659,-105507.849,-16842.815,
79219.312,-67208.9653,-55281.6298,
96443.6272,65300.2993,-16148.5758,
-21359.8705,106362.152,45556.2664,
-109374.203,-1871.74455,43428.3087,
-43785.1801,-107356.932,-19623.4508,
83022.5052,-62466.9047,-55182.0557,
93535.2403,70192.1192,-13369.9205,
-27277.3657,104196.204,47218.4752,
-109737.57,-7707.48639,41637.0198,
-38417.8694,-108985.93,-22396.0897,
86857.0298,-57168.4581,-54971.7516,
90315.9873,74595.1482,-10486.9593,
-32838.7361,101972.262,48766.6251,
-109933.465,-13892.8092,39500.9291,
-32891.912,-110080.425,-25075.0411,
90328.3723,-52136.7218,-54548.1907,
86760.437,79126.1035,-7417.82077,
-38407.5513,99260.3955,49987.5595,
-109838.39,-19613.8123,37424.8428,
-27056.141,-111122.671,-27702.6466,
93521.7326,-46644.0555,-53890.1573,
83139.5673,83137.6075,-4656.03702,
-44016.5906,96383.6577,51226.3486,
-109234.167,-25636.4848,35183.3717,
-21511.7996,-111674.25,-30120.9895,
96566.8291,-41100.2468,-53288.4104,
-109869.917,-16351.4488,38677.9262,
65383.165,97478.8803,7569.60655,
#endif
