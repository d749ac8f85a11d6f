{ -2.053200000, 0.762159285584, 0.632122653638, 0.003009547433 },
{ -2.001909000, -0.832239027120, 0.533910657967, 0.002448137256 },
{ -1.950616000, -0.317451649171, -0.964885472985, -0.004350471342 },
{ -1.899321000, 0.999316483835, -0.090034952495, -0.000354163700 },
{ -1.848024000, -0.231723094488, 0.954915186830, 0.004060220055 },
{ -1.796725000, -0.849052110225, -0.541905471705, -0.002293158666 },
{ -1.745424000, 0.746705002502, -0.684804519122, -0.002704534194 },
{ -1.694121000, 0.392607817046, 0.903451201029, 0.003552440256 },
{ -1.642816000, -0.996913708033, 0.018009410481, -0.000006133573 },
{ -1.591509000, 0.295476835554, -0.973267359119, -0.003540961918 },
{ -1.540200000, 0.798249035802, 0.588196333412, 0.002152977299 },
{ -1.488889000, -0.868195033537, 0.474555353844, 0.001547788464 },
{ -1.437576000, -0.129828370606, -1.008354035072, -0.003343844307 },
{ -1.386261000, 0.971829767453, 0.228391963531, 0.000823617920 },
{ -1.334944000, -0.633480386263, 0.754487909227, 0.002246785847 },
{ -1.283625000, -0.434303349098, -0.916453486553, -0.002749642226 },
{ -1.232304000, 1.001852771363, -0.055583922700, -0.000049306770 },
{ -1.180981000, -0.419546481176, 0.889524674471, 0.002368164066 },
{ -1.129656000, -0.611247910724, -0.806127739957, -0.002154138639 },
{ -1.078329000, 0.980345934922, -0.226976757209, -0.000452072140 },
{ -1.027000000, -0.290112309496, 0.939215598634, 0.002180975107 },
{ -0.975669000, -0.684857727441, -0.742686207534, -0.001734447482 },
{ -0.924336000, 0.966148542563, -0.285381286596, -0.000500575802 },
{ -0.873001000, -0.267262690261, 0.946018561583, 0.001863140938 },
{ -0.821664000, -0.674184082066, -0.752463221774, -0.001483058305 },
{ -0.770325000, 0.978949936907, -0.234828359900, -0.000312647849 },
{ -0.718984000, -0.353801106686, 0.917479214455, 0.001475554346 },
{ -0.667641000, -0.576088935238, -0.831794774677, -0.001324186428 },
{ -0.616296000, 1.001569812581, -0.072000747043, -0.000014280451 },
{ -0.564949000, -0.537375890394, 0.824609561087, 0.001016424447 },
{ -0.513600000, -0.367636507963, -0.945206486435, -0.001136609404 },
{ -0.462249000, 0.978513671977, 0.204220880635, 0.000288605394 },
{ -0.410896000, -0.774715055897, 0.611459177059, 0.000518603068 },
{ -0.359541000, -0.028080926753, -1.016027739248, -0.000835820064 },
{ -0.308184000, 0.819784709008, 0.561043822408, 0.000439821726 },
{ -0.256825000, -0.966406807584, 0.226532449192, 0.000086874412 },
{ -0.205464000, 0.418309429609, -0.926316535398, -0.000417249406 },
{ -0.154101000, 0.434416817703, 0.886019516967, 0.000325071530 },
{ -0.102736000, -0.952009807353, -0.310481351013, -0.000092955110 },
{ -0.051369000, 0.844846370893, -0.556960964192, -0.000052586021 },
{ 0.000000000, -0.177134307467, 0.967241739210, -0.000003248204 },
{ 0.051371000, -0.577913314340, -0.829579253811, 0.000105965703 },
{ 0.102744000, 0.996847628845, 0.100574496874, -0.000046041500 },
{ 0.154119000, -0.794090142628, 0.586504029054, -0.000175608671 },
{ 0.205496000, 0.140106038163, -1.006781536403, 0.000461594664 },
{ 0.256875000, 0.604043271022, 0.783716323212, -0.000490935275 },
{ 0.308256000, -0.975275558916, -0.217750069079, 0.000226861650 },
{ 0.359639000, 0.848224137220, -0.551959023245, 0.000375531363 },
{ 0.411024000, -0.281072937786, 0.942396092709, -0.000849099368 },
{ 0.462411000, -0.400675855030, -0.930354966040, 0.001020069792 },
{ 0.513800000, 0.915358202013, 0.395699490780, -0.000574607498 },
{ 0.565191000, -0.968089026289, 0.217275750190, -0.000139380743 },
{ 0.616584000, 0.598998414576, -0.819823619389, 0.001038691031 },
{ 0.667979000, 0.031345479286, 0.983782493618, -0.001486418891 },
{ 0.719376000, -0.610258896149, -0.804523098522, 0.001421660932 },
{ 0.770775000, 0.975792962109, 0.221011868518, -0.000588921806 },
{ 0.822176000, -0.931759872340, 0.335715486125, -0.000403549108 },
{ 0.873579000, 0.551179526933, -0.853015901659, 0.001538866563 },
{ 0.924984000, 0.028389626100, 0.983996847398, -0.002048640589 },
{ 0.976391000, -0.557177783146, -0.842910194524, 0.002007585930 },
{ 1.027800000, 0.937434645335, 0.344201631837, -0.001078369968 },
{ 1.079211000, -0.981570501459, 0.149554738948, -0.000036462231 },
{ 1.130624000, 0.742341087480, -0.690648350941, 0.001491887772 },
{ 1.182039000, -0.289350186378, 0.940299856835, -0.002377009778 },
{ 1.233456000, -0.214245047291, -0.991161778099, 0.002816793575 },
{ 1.284875000, 0.691690346731, 0.711179579649, -0.002328904256 },
{ 1.336296000, -0.937358628451, -0.350288891624, 0.001453330422 },
{ 1.387719000, 0.988884560525, -0.192722253552, 0.000142768604 },
{ 1.439144000, -0.802291966801, 0.574995212520, -0.001453332694 },
{ 1.490571000, 0.451653465783, -0.909996635964, 0.002788776503 },
{ 1.542000000, -0.004145812261, 0.984723586307, -0.003379437305 },
{ 1.593431000, -0.397799932583, -0.930466924877, 0.003520114835 },
{ 1.644864000, 0.767118371596, 0.632055677527, -0.002760240568 },
{ 1.696299000, -0.943755918196, -0.330384082252, 0.001819904037 },
{ 1.747736000, 0.998808778209, -0.126019011194, -0.000145349956 },
{ 1.799175000, -0.884346613929, 0.441860050663, -0.001177959667 },
{ 1.850616000, 0.651770252742, -0.777815879637, 0.002742135506 },
{ 1.902059000, -0.333270101227, 0.925977807207, -0.003659124382 },
{ 1.953504000, 0.004380635419, -1.014929812948, 0.004385055860 },
{ 2.004951000, 0.352615091806, 0.922782067514, -0.004366021230 },
{ 2.056400000, -0.605762497431, -0.806322195968, 0.004151370588 },
