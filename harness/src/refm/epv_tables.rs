// Generated by tools/gen_epv.py from the SOFA epv00.for: (amplitude, phase, frequency) per term
pub type Terms = &'static [(f64, f64, f64)];
pub static E0_X: Terms = &[
    (0.9998292878132, 1.753485171504, 6.283075850446),
    (0.008352579567414, 1.710344404582, 12.56615170089),
    (0.005611445335148, 0.0, 0.0),
    (0.0001046664295572, 1.66722541677, 18.84922755134),
    (3.110842534677e-05, 0.6687513390251, 83.99684731857),
    (2.55241350355e-05, 0.5830637358413, 0.5296909721118),
    (2.137207845781e-05, 1.092330954011, 1.577343543434),
    (1.680240182951e-05, 0.4955366134987, 6.279552690824),
    (1.679012370795e-05, 6.153014091901, 6.286599010068),
    (1.445526946777e-05, 3.472744100492, 2.352866153506),
    (1.091038246184e-05, 3.689845786119, 5.223693906222),
    (9.344399733932e-06, 6.073934645672, 12.03646072878),
    (8.993182910652e-06, 3.175705249069, 10.21328554739),
    (5.665546034116e-06, 2.152484672246, 1.059381944224),
    (6.844146703035e-06, 1.30696409975, 5.753384878334),
    (7.346610905565e-06, 4.354980070466, 0.3981490189893),
    (6.815396474414e-06, 2.218229211267, 4.705732307012),
    (6.112787253053e-06, 5.384788425458, 6.812766822558),
    (4.518120711239e-06, 6.087604012291, 5.884926831456),
    (4.521963430706e-06, 1.279424524906, 6.256777527156),
    (4.497426764085e-06, 5.369129144266, 6.309374173736),
    (4.062190566959e-06, 0.5436473303367, 6.681224869435),
    (5.412193480192e-06, 0.7867838528395, 0.775522610072),
    (5.469839049386e-06, 1.461440311134, 14.14349524433),
    (5.205264083477e-06, 4.432944696116, 7.86041939388),
    (2.149759935455e-06, 4.502237496846, 11.50676975667),
    (2.279109618501e-06, 1.239441308815, 7.058598460518),
    (2.259282939683e-06, 3.272430985331, 4.69400293411),
    (2.558950271319e-06, 2.265471086404, 12.1680026819),
    (2.561581447555e-06, 1.454740653245, 0.7099330490126),
    (1.78144111544e-06, 2.962068630206, 0.7962980379786),
    (1.612005874644e-06, 1.473255041006, 5.486777812467),
    (1.818630667105e-06, 0.3743903293447, 6.283008715021),
    (1.818601377529e-06, 6.274174354554, 6.28314298587),
    (1.554475925257e-06, 1.624110906816, 25.13230340178),
    (2.090948029241e-06, 5.852052276256, 11.79062909082),
    (2.00017634546e-06, 4.072093298513, 17.78984560711),
    (1.289535917759e-06, 5.217019331069, 7.079373888424),
    (1.281135307881e-06, 4.802054538934, 3.738761453707),
    (1.518229005692e-06, 0.8691914742502, 0.2132990797783),
    (9.450128579027e-07, 4.60185952995, 10.97707878456),
    (7.781119494996e-07, 1.844352816694, 8.827390247185),
    (7.733407759912e-07, 3.58279015475, 5.507553240374),
    (7.35064431812e-07, 2.69527778823, 1.589072916335),
    (6.535928827023e-07, 3.651327986142, 11.76985366291),
    (6.324624183656e-07, 2.241302375862, 6.262300422539),
    (6.298565300557e-07, 4.407122406081, 6.303851278352),
    (8.587037089179e-07, 3.024307223119, 167.2837615881),
    (8.299954491035e-07, 6.192539428237, 3.340612434717),
    (6.311263503401e-07, 2.014758795416, 0.0071134546679),
    (6.005646745452e-07, 3.399500503397, 4.136910472696),
    (7.917715109929e-07, 2.493386877837, 6.069776770667),
    (7.556958099685e-07, 4.159491740143, 6.496374930224),
    (6.773228244949e-07, 4.03416293423, 9.437762937313),
    (5.370708577847e-07, 1.562219163734, 1.194447056968),
    (5.710804266203e-07, 2.662730803386, 6.282095334605),
    (5.709824583726e-07, 3.985828430833, 6.284056366286),
    (5.143950896447e-07, 1.308144688689, 6.290189305114),
    (5.088010604546e-07, 5.352817214804, 6.275962395778),
    (4.960369085172e-07, 2.644267922349, 6.127655567643),
    (4.803137891183e-07, 4.00884419208, 6.438496133249),
    (5.731747768225e-07, 3.794550174597, 3.154687086868),
    (4.735947960579e-07, 6.107118308982, 3.128388763578),
    (4.808348796625e-07, 4.771458618163, 0.8018209333619),
    (4.115073743137e-07, 3.327111335159, 8.429241228195),
    (5.230575889287e-07, 5.305708551694, 13.36797263425),
    (5.133977889215e-07, 5.784230738814, 12.35285262111),
    (5.065815825327e-07, 2.052064793679, 11.85621865188),
    (4.339831593868e-07, 3.64499419583, 17.260154635),
    (3.952928638953e-07, 4.930376436758, 5.481254917084),
    (4.898498111942e-07, 0.4542084219731, 9.225539266174),
    (4.757490209328e-07, 3.161126388878, 5.856477690889),
    (4.727701669749e-07, 0.6214993845446, 2.544314396739),
    (3.800966681863e-07, 3.040132339297, 0.4265981595566),
    (3.257301077939e-07, 0.8064977360087, 3.93020969694),
    (3.255810528674e-07, 1.974147981034, 2.14616537775),
    (3.252029748187e-07, 2.845924913135, 4.164311961999),
    (3.255505635308e-07, 3.01790082412, 5.088628793478),
    (2.80134521199e-07, 6.109717793179, 12.56967486051),
    (3.68898774097e-07, 2.911550235289, 18.07370494127),
    (2.475153429458e-07, 2.179146025856, 0.0262983232899),
    (3.03345774915e-07, 1.994161050744, 4.535059491685),
    (2.18674376311e-07, 5.125687237936, 11.37170464392),
    (2.764777032774e-07, 0.4822646860252, 12.56262854127),
    (2.199028768592e-07, 4.637633293831, 12.55903824622),
    (2.04648282476e-07, 1.467038733093, 7.084896783808),
    (2.611209147507e-07, 0.3044718783485, 71.43069561767),
    (2.286079656818e-07, 4.764220356805, 8.031092209206),
    (1.855071202587e-07, 3.383637774428, 1.74801635876),
    (2.324669506784e-07, 6.189088449251, 18.31953657923),
    (1.709528015688e-07, 0.5874966729774, 4.933208510675),
    (2.168156875828e-07, 4.302994009132, 10.44738781244),
    (2.106675556535e-07, 3.800475419891, 7.477522907414),
    (1.430213830465e-07, 1.294660846502, 2.942463415728),
    (1.388396901944e-07, 4.594797202114, 8.635942003952),
    (1.92225884419e-07, 0.4943044543591, 17.29818233119),
    (1.888460058292e-07, 2.426943912028, 156.1374759853),
    (1.789449386107e-07, 0.1582973303499, 1.592596075957),
    (1.360803685374e-07, 5.197240440504, 13.095842673),
    (1.504038014709e-07, 3.120360916217, 16.49636139783),
    (1.382769533389e-07, 6.164702888205, 7.632943190217),
    (1.438059769079e-07, 1.437423770979, 20.42657109477),
    (1.326303260037e-07, 3.609688799679, 12.13955354133),
    (1.15924495054e-07, 5.463018167225, 5.331357529664),
    (1.433118149136e-07, 6.028909912097, 7.342457794669),
    (1.234623148594e-07, 3.109645574997, 6.2794855554),
    (1.233949875344e-07, 3.539359332866, 6.286666145492),
    (9.927196061299e-08, 1.259321569772, 7.234794171227),
    (1.242302191316e-07, 1.065949392609, 15.11046609763),
    (1.098402195201e-07, 2.192508743837, 10.98880815746),
    (1.158191395315e-07, 4.05441127865, 5.729506548653),
    (9.048475596241e-08, 5.429764748518, 9.623688285163),
    (8.889853269023e-08, 5.046586206575, 6.148010737701),
    (1.048694242164e-07, 2.628858030806, 6.836645152238),
    (1.112308378646e-07, 4.177292719907, 15.72083878776),
    (8.631729709901e-08, 1.601345232557, 6.41814096319),
    (8.527816951664e-08, 2.463888997513, 14.71231707864),
    (7.892139456991e-08, 3.154022088718, 2.118763888447),
    (1.051782905236e-07, 4.795035816088, 1.349867339771),
    (1.048219943164e-07, 2.95298339523, 5.999216516294),
    (7.435760775143e-08, 5.420547991464, 6.04034711426),
    (9.869574106949e-08, 3.695646753667, 6.566935184597),
    (9.156886364226e-08, 3.922675306609, 5.643178611111),
    (7.006834356188e-08, 1.233968624861, 6.525804586632),
    (9.806170182601e-08, 1.919542280684, 21.22839202813),
    (9.052289673607e-08, 4.615902724369, 4.690479774488),
    (7.554200867893e-08, 1.236863719072, 12.5398533776),
    (8.215741286498e-08, 0.3286800101559, 10.97355562493),
    (7.185178575397e-08, 5.880942158367, 6.245048154254),
    (7.13072647618e-08, 0.7674871987661, 6.321103546637),
    (6.650894461162e-08, 0.6987129150116, 5.327476111629),
    (7.396888823688e-08, 3.576824794443, 0.5368044267797),
    (7.420588884775e-08, 5.033615245369, 23.54323048545),
    (6.141181642908e-08, 0.9449927045673, 12.96430071988),
    (6.373557924058e-08, 6.206342280341, 0.9517183207817),
    (6.359474329261e-08, 5.036079095757, 1.990745094947),
    (5.740173582646e-08, 6.10510637135, 0.9555997388169),
    (7.019864084602e-08, 0.7237747359018, 0.5225775174439),
    (6.398054487042e-08, 3.976367969666, 24.07292145756),
    (7.797092650498e-08, 4.305423910623, 22.0039146382),
    (6.4667600009e-08, 3.5001368252, 5.23080736089),
    (7.52941704389e-08, 3.5147792461, 18.42262939178),
    (6.924571140892e-08, 2.743457928679, 0.1554202828031),
    (6.220798650222e-08, 2.242598118209, 18.45107853235),
    (5.870209391853e-08, 2.332832707527, 0.6398972393349),
    (6.263953473888e-08, 2.191105358956, 6.277552955062),
    (6.257781390012e-08, 4.457559396698, 6.288598745829),
    (5.697304945123e-08, 3.499234761404, 1.551045220144),
    (6.335438746791e-08, 0.6441691079251, 5.216580451554),
    (6.377258441152e-08, 2.252599151092, 5.650292065779),
    (6.484841818165e-08, 1.992812417646, 0.1030928125552),
    (4.73555148525e-08, 3.744672082942, 14.31416805965),
    (4.62859599617e-08, 1.334226211745, 0.5535693017924),
    (6.258152336933e-08, 4.395836159154, 26.0879031406),
    (6.196171366594e-08, 2.587043007997, 84.67247584405),
    (6.159556952126e-08, 4.782499769128, 239.4243902548),
    (4.987741172394e-08, 0.7312257619924, 77.71377146812),
    (5.459280703142e-08, 3.001376372532, 6.17998303789),
    (4.863461189999e-08, 3.767222128541, 90.27992316901),
    (5.349912093158e-08, 3.663594450273, 6.386168663001),
    (5.673725607806e-08, 4.331187919049, 6.915859635113),
    (4.745485060512e-08, 5.816195745518, 6.282970628506),
    (4.745379005326e-08, 0.8323672435672, 6.283181072386),
    (4.049002796321e-08, 3.785023976293, 6.254626709878),
    (4.247084014515e-08, 2.378220728783, 7.875671926403),
    (4.026912363055e-08, 2.864103423269, 6.311524991013),
    (4.062935011774e-08, 2.415408595975, 3.634620989887),
    (5.347771048509e-08, 3.343479309801, 25.15860172507),
    (4.829494136505e-08, 2.821742398262, 5.760498333002),
    (4.342554404599e-08, 5.624662458712, 7.238675589263),
    (4.021599184361e-08, 0.5557250275009, 11.01510648075),
    (4.104900474558e-08, 3.296691780005, 6.709674010002),
    (4.376532905131e-08, 3.814443999443, 6.80565336789),
    (3.31459048065e-08, 3.56022918925, 12.59245002418),
    (3.232421839643e-08, 5.185389180568, 1.066495398892),
    (3.541176318876e-08, 3.921381909679, 9.917696840332),
    (3.689831242681e-08, 4.190658955386, 11.92625446156),
    (3.890605376774e-08, 5.546023371097, 0.0747816656905),
    (3.03855933978e-08, 6.231032794494, 12.56621883632),
    (3.137083969782e-08, 6.20706341919, 4.292330755499),
    (4.024004081854e-08, 1.195257375713, 13.34167431096),
    (3.300234879283e-08, 1.804694240998, 10.57540660594),
    (3.635399155575e-08, 5.5978113435, 6.208294184755),
    (3.032668691356e-08, 3.19105936653, 18.05292951336),
    (2.809652069058e-08, 4.09434803257, 0.003523159621801),
    (3.696955383823e-08, 5.219282738794, 5.966683958112),
    (3.562894142503e-08, 1.037247544554, 6.357857516136),
    (3.510598524148e-08, 1.430020816116, 6.599467742779),
    (3.617736142953e-08, 3.002911403677, 6.019991944201),
    (2.62452491073e-08, 2.437046757292, 6.702560555334),
    (2.53582420449e-08, 1.581594689647, 31.41537925223),
    (3.519787226257e-08, 5.379863121521, 250.5706758577),
    (2.578406709982e-08, 4.904222639329, 16.73046366289),
    (3.423887981473e-08, 3.646448997315, 6.546159756691),
    (2.776083886467e-08, 3.307829300144, 12.72157198369),
    (3.379592818379e-08, 1.747541251125, 14.94531617769),
    (3.050255426284e-08, 0.01784689432607, 4.732030630302),
    (2.652378350236e-08, 4.42005527626, 5.863591145557),
    (2.374498173768e-08, 3.629773929208, 2.388894113936),
    (2.71645125514e-08, 3.07962370678, 12.02934727411),
    (3.038583699229e-08, 0.3312487903507, 12.56608456547),
    (2.22068122876e-08, 5.265520401774, 13.36244973887),
    (3.044156540912e-08, 4.76666408125, 29.08881142201),
    (2.731859923561e-08, 5.069146530691, 13.91601904066),
    (2.285603018171e-08, 5.954935112271, 6.076890225335),
    (2.025006454555e-08, 4.061789589267, 4.701116388778),
    (2.012597519804e-08, 2.485047705241, 6.262720680387),
    (2.003406962258e-08, 4.16377920932, 6.303431020504),
    (2.207863441371e-08, 0.6923839133828, 6.489261475556),
    (2.481374305624e-08, 5.944173595676, 12.04357418345),
    (2.13092328887e-08, 4.641013671967, 5.746271423666),
    (2.446370543391e-08, 6.125796518757, 0.149563331381),
    (1.932492759052e-08, 0.2234572324504, 13.52175143971),
    (2.600122568049e-08, 4.28101240544, 4.590910121555),
    (2.431754047488e-08, 0.142994387487, 1.162474756779),
    (1.875902869209e-08, 0.9781803816948, 6.27919443241),
    (1.874381139426e-08, 5.670368130173, 6.286957268481),
    (2.156696047173e-08, 2.008985006833, 18.13929450232),
    (1.965076182484e-08, 0.2566186202453, 4.686889479442),
    (2.334816372359e-08, 4.408121891493, 10.02183730415),
    (1.869937408802e-08, 5.272745038656, 0.2427287361862),
    (2.436236460883e-08, 4.407720479029, 95.14313292143),
    (1.761365216611e-08, 0.1943892315074, 13.51787002167),
    (2.156289480503e-08, 1.418570924545, 6.037244212485),
    (2.164748979255e-08, 4.72460343943, 23.01353951334),
    (2.222286670853e-08, 2.400266874598, 12.66924451345),
    (2.070901414929e-08, 5.230348028732, 6.528907488406),
    (1.79274517702e-08, 2.099190328945, 6.819880277225),
    (1.841802068445e-08, 0.3467527844848, 65.14761976723),
    (1.578401631718e-08, 0.709864235634, 0.0207754279066),
    (1.561690152531e-08, 5.943349620372, 6.272439236156),
    (1.558591045463e-08, 0.704065347898, 6.293712464735),
    (1.737356469576e-08, 4.487064760345, 17.65478049437),
    (1.434755619991e-08, 2.993391570995, 0.1102062672231),
    (1.482187806654e-08, 2.278049198251, 1.052268489556),
    (1.424812827089e-08, 1.682114725827, 13.11972100268),
    (1.380282448623e-08, 3.262668602579, 10.17725758696),
    (1.811481244566e-08, 3.187771221777, 18.87552587463),
    (1.504446185696e-08, 5.650162308647, 0.0762658362624),
    (1.740776154137e-08, 5.487068607507, 19.6510484847),
    (1.374339536251e-08, 5.745688172201, 6.016468784579),
    (1.761377477704e-08, 5.748060203659, 25.93412433514),
    (1.535138225795e-08, 6.22684850579, 9.411464614024),
    (1.788140543676e-08, 6.189318878563, 33.01902111895),
    (1.375002807996e-08, 5.371812884394, 0.632783784667),
    (1.242115758632e-08, 1.471687569712, 3.89418173651),
    (1.450977333938e-08, 4.143836662127, 12.77945078067),
    (1.297579575023e-08, 0.9003477661957, 6.549682916313),
    (1.462667934821e-08, 5.760505536428, 18.63592847156),
    (1.381774374799e-08, 1.085471729463, 2.379164476796),
    (1.682333169307e-08, 5.409870870133, 16.20077269078),
    (1.190812918837e-08, 1.397205174601, 11.499656302),
    (1.221434762106e-08, 0.9001804809095, 12.57326515556),
    (1.54993464486e-08, 4.262528275544, 18.209330312),
    (1.25213895305e-08, 1.411642012027, 6.993008899458),
    (1.237078905387e-08, 2.844472403615, 24.35678079171),
    (1.446953389615e-08, 5.295835522223, 0.0381329181312),
    (1.38844645717e-08, 4.969428135497, 0.2458316379602),
    (1.019339179228e-08, 2.491369561806, 6.112403035119),
    (1.258880815343e-08, 4.679426248976, 5.429879531333),
    (1.297768238261e-08, 1.074509953328, 12.4913700352),
    (9.913505718094e-09, 4.735097918224, 6.247047890016),
    (9.830453155969e-09, 4.158649187338, 6.453748665772),
    (1.192615865309e-08, 3.438208613699, 6.290122169689),
    (9.835874798277e-09, 1.913300781229, 6.319103810876),
    (9.639087569277e-09, 0.9487683644125, 8.273820945392),
    (1.175716107001e-08, 3.228141664287, 6.276029531202),
    (1.018926508678e-08, 2.2166078543, 12.54537627298),
    (9.500087869225e-09, 2.625116459733, 12.56517118505),
    (9.664192916575e-09, 5.860562449214, 6.259197520765),
    (9.612858712203e-09, 0.7885682917381, 6.306954180126),
    (1.117645675413e-08, 3.932148831189, 17.79695906178),
    (1.15886405216e-08, 0.9995605521691, 17.78273215245),
    (9.021043467028e-09, 5.263769742673, 6.172869583223),
    (8.836134773563e-09, 1.496843220365, 1.692165728891),
    (1.045872200691e-08, 0.7009039517214, 0.2204125344462),
    (1.211463487798e-08, 4.041544938511, 82.57698122054),
    (8.541990804094e-09, 1.447586692316, 6.393282117669),
    (1.038720703636e-08, 0.4594249718112, 15.50861511662),
    (1.126722351445e-08, 3.925550579036, 0.2061856251104),
    (8.697373859631e-09, 4.411341856037, 0.9491756770005),
    (8.869380028441e-09, 2.402659724813, 3.90391137365),
    (9.247014693258e-09, 1.401579743423, 6.267823317922),
    (9.20506293095e-09, 5.245978000814, 6.298328382969),
    (8.000745038049e-09, 3.590803356945, 2.648454860559),
    (9.168973650819e-09, 2.470150501679, 149.8544001348),
    (1.075444949238e-08, 1.32860616123, 36.94923081589),
    (7.817298525817e-09, 6.162256225998, 4.804209201333),
    (9.541469226356e-09, 3.942568967039, 12.56713221673),
    (9.821910122027e-09, 0.2360246287233, 11.40367694411),
    (9.897822023777e-09, 4.61980563428, 22.80573557157),
    (7.737289283765e-09, 3.784727847451, 7.83412107059),
    (9.26020403471e-09, 2.223352487601, 2.787043132925),
    (7.320252888486e-09, 1.288694636874, 6.282655592598),
    (7.319785780946e-09, 5.359869567774, 6.283496108294),
    (7.147219933778e-09, 5.516616675856, 17.25663147538),
    (7.946502829878e-09, 2.630459984567, 12.41073141809),
    (9.001711808932e-09, 2.849815827227, 6.281591679874),
    (8.994041507257e-09, 3.79524445075, 6.284560021018),
    (8.298582787358e-09, 0.5236413127363, 12.41658836951),
    (8.52659652071e-09, 4.794605424426, 10.98419223922),
    (8.209822103197e-09, 1.578752370328, 10.96996532989),
    (6.357049861094e-09, 5.708926113761, 1.596186371003),
    (7.370473179049e-09, 3.842402530241, 4.061219149443),
    (7.232154664726e-09, 3.067548981535, 161.0006857377),
    (6.328765494903e-09, 1.313930030069, 11.93336791622),
    (8.030064908595e-09, 3.488500408886, 0.8460828644453),
    (6.275464259232e-09, 1.532061626198, 0.8531963191132),
    (7.051897446325e-09, 3.285859929993, 5.849364236221),
    (6.161593705428e-09, 1.477341999464, 5.573142801433),
    (7.754683957278e-09, 1.586118663096, 8.662240327241),
    (5.889928990701e-09, 1.304887868803, 12.32342296471),
    (5.705756047075e-09, 4.55533358935, 12.5869271288),
    (5.964178808332e-09, 3.001762842062, 5.333900173445),
    (6.712446027467e-09, 4.886780007595, 11.71295538178),
    (5.941809275464e-09, 4.701509603824, 9.779108567966),
    (5.466993627395e-09, 4.588357817278, 18.84211409667),
    (6.34051209098e-09, 1.164543038893, 52.1758062812),
    (6.325505710045e-09, 3.919171259645, 10.41998632314),
    (6.164789509685e-09, 2.143828253542, 6.151533897323),
    (5.26333081243e-09, 6.066564434241, 18.85275071096),
    (5.597087780221e-09, 2.926316429472, 0.4337116142245),
    (5.396556236817e-09, 3.244303591505, 6.286362197481),
    (5.396615148223e-09, 3.404304703662, 6.27978950341),
    (7.091832443341e-09, 0.8532377803192, 4.907302013889),
    (6.572352589782e-09, 4.901966774419, 11.76433076753),
    (5.960236060795e-09, 1.874672315797, 0.0142269093358),
    (5.125480043511e-09, 3.735726064334, 12.45594543367),
    (5.92824186641e-09, 4.502033899935, 6.414617803568),
    (5.249600357424e-09, 4.372334799878, 11.51388321134),
    (6.059171276087e-09, 2.581617302908, 6.062663316),
    (5.295235081662e-09, 2.974811513158, 3.496032717521),
    (5.820561875933e-09, 0.1796073748244, 0.2838593341516),
    (4.75469660644e-09, 1.981998136973, 3.104930017775),
    (6.385053548955e-09, 0.2559174171605, 6.133512519065),
    (6.589828273941e-09, 2.750967106776, 40.87944051283),
    (5.383376567189e-09, 0.6325947523578, 22.48384854122),
    (5.928941683538e-09, 1.672304519067, 1.581959461667),
    (4.816060709794e-09, 3.512566172575, 9.388005868221),
    (6.003381586512e-09, 5.610932219189, 5.326786718777),
    (5.504225393105e-09, 4.037501131256, 6.503488384892),
    (5.353772620129e-09, 6.12277496824, 173.5668374386),
    (5.786253768544e-09, 5.527984999515, 0.1350651127443),
    (5.065706702002e-09, 0.9980765573624, 12.48988586463),
    (5.972838885276e-09, 6.044489493203, 26.73594526851),
    (5.323585877961e-09, 3.924265998147, 4.171425416666),
    (5.210772682858e-09, 6.220111376901, 24.60261242967),
    (4.726549040535e-09, 3.716043206862, 7.232251527446),
    (6.029425105059e-09, 0.8548704071116, 322.7113045244),
    (4.481542826513e-09, 1.426925072829, 5.547199253223),
    (5.836024505068e-09, 0.07135651752625, 72.8505617157),
    (4.137046613272e-09, 5.330767643283, 10.873985972),
    (5.171977473924e-09, 0.4494262335353, 18.84570439172),
    (5.694429833732e-09, 2.952369582215, 97.23862754494),
    (4.009158925298e-09, 3.500003416535, 6.244942932314),
    (4.784939596873e-09, 6.196709413181, 29.29661536378),
    (3.98372502261e-09, 5.103690031897, 4.274518229222),
    (3.870535232462e-09, 3.187569587401, 6.321208768577),
    (5.140501213951e-09, 1.668924357457, 12.32032006293),
    (3.849034819355e-09, 4.445722510309, 17.26726808967),
    (4.00238307506e-09, 5.226224152423, 7.018952447668),
    (3.890719543549e-09, 4.371166550274, 14.9190178544),
    (4.887084607881e-09, 5.973556689693, 1.478866649112),
    (3.739939287592e-09, 2.0890847146, 6.922973089781),
    (5.031925918209e-09, 4.658371936827, 17.15706182245),
    (4.387748764954e-09, 4.825580552819, 233.1413144044),
    (4.147398098865e-09, 3.739003524998, 13.76059875786),
    (3.719089993586e-09, 1.148941386536, 6.297302759782),
    (3.934238461056e-09, 1.559893008343, 7.872148766781),
    (3.672471375622e-09, 5.516145383612, 6.26884894111),
    (3.768911277583e-09, 6.116053700563, 4.157198507331),
    (4.033388417295e-09, 5.076821746017, 15.67108171867),
    (3.764194617832e-09, 0.8164676232075, 3.185192151914),
    (4.840628226284e-09, 1.360479453671, 12.52801878276),
    (4.949443923785e-09, 2.725622229926, 161.7106187867),
    (4.117393089971e-09, 0.6054459628492, 5.64219809527),
    (3.925754020428e-09, 0.857046213521, 21.39354194808),
    (3.630551757923e-09, 3.552067338279, 6.294805223347),
    (3.627274802357e-09, 3.096565085313, 6.271346477544),
    (3.806143885093e-09, 0.6367751709777, 17.25304118033),
    (4.433254641565e-09, 4.848461503937, 7.445550607224),
    (3.712319846576e-09, 1.331950643655, 0.4194847048887),
    (3.849847534783e-09, 0.4958368297746, 0.9562891316684),
    (3.483955430165e-09, 2.237215515707, 11.61697602389),
    (3.961912730982e-09, 3.332402188575, 22.77943724828),
    (3.419978244481e-09, 5.785600576016, 13.62553364512),
    (3.329417758177e-09, 0.09812676559709, 16.85848245639),
    (4.207206893193e-09, 0.9494780468236, 29.86433403208),
    (3.26854897641e-09, 0.1739332095686, 5.749861718712),
    (3.321880082685e-09, 1.423354800666, 6.27914338782),
    (4.503173010852e-09, 0.2314972675293, 1.385561574497),
    (4.316599090954e-09, 0.1012646782616, 4.1760413349),
    (3.28349332385e-09, 5.233306881265, 6.287008313071),
    (3.164033542343e-09, 4.005597257511, 20.99539292909),
    (4.159720956725e-09, 5.36567624202, 5.905702259363),
    (3.565176892217e-09, 4.284440620612, 0.0039324626253),
    (3.514440950221e-09, 4.270562636575, 7.335344340001),
    (3.540596871909e-09, 5.95355320106, 12.34573916645),
    (2.960769905118e-09, 1.115180417718, 26.70964694522),
    (2.962213739684e-09, 3.863811918186, 0.6408777551755),
    (3.883556700251e-09, 1.268617928302, 6.660449441528),
    (2.919225516346e-09, 4.908605223265, 1.375773836557),
    (3.11515886337e-09, 3.744519976885, 0.0380276961914),
    (4.099438144212e-09, 4.173244670532, 44.80965020977),
    (2.899531858964e-09, 5.91060142885, 20.5972439101),
    (3.289733429855e-09, 2.488050078239, 10.81813534213),
    (3.933075612875e-09, 1.122363652883, 0.3773735910827),
    (3.021403764467e-09, 4.951973724904, 29.82630633589),
    (2.798598949757e-09, 5.117057845513, 19.37891852345),
    (3.397421302707e-09, 6.104159180476, 6.923953605621),
    (3.720398002179e-09, 1.184933429829, 30.66615496545),
    (3.598484186267e-09, 3.505282086105, 6.147450479709),
    (3.69459402731e-09, 2.286651088141, 2.636725487657),
    (2.680444152969e-09, 0.1871816775482, 6.816289982179),
    (3.497574865641e-09, 3.143251755431, 6.418701221183),
    (3.130274129494e-09, 2.462167316018, 12.35996607578),
    (3.241119069551e-09, 4.256374004686, 16.52265972112),
    (2.601960842061e-09, 4.970362941425, 10.45450126711),
    (2.690601527504e-09, 2.372657824898, 0.3163918923335),
    (2.908688152664e-09, 4.232652627721, 28.28699048865),
    (3.120456131875e-09, 0.3925747001137, 21.95415756911),
    (3.148855423384e-09, 3.093478330445, 11.72006883645),
    (3.051044261017e-09, 5.560948248212, 6.055599646783),
    (2.82600687666e-09, 5.072790310072, 5.120601093667),
    (3.100034191711e-09, 4.998530231096, 17.99603123222),
    (2.398771640101e-09, 2.561739802176, 6.255674361143),
    (2.384002842728e-09, 4.087420284111, 6.310477339748),
    (2.842146517568e-09, 2.515048217955, 5.469525544182),
    (2.84767437134e-09, 5.235326497443, 10.34429499989),
    (2.903722140764e-09, 1.088200795797, 6.510552054109),
    (3.187610710605e-09, 4.710624424816, 169.3792562116),
    (3.048869992813e-09, 0.2857975896445, 8.390110365991),
    (2.860216950984e-09, 2.241619020815, 0.2243449970715),
    (2.701117683113e-09, 0.06651573305272, 6.129297044991),
    (2.509891590152e-09, 1.285135324585, 10.44027435778),
    (2.623200252223e-09, 0.298122983453, 6.436854655901),
    (2.622541669202e-09, 6.122470726189, 9.380959548977),
    (2.818435667099e-09, 4.251087148947, 5.93415139993),
    (2.365196797465e-09, 3.46507046079, 24.70570524223),
    (2.358704646143e-09, 5.79160381535, 8.671969964381),
    (2.38829948139e-09, 4.142483772941, 7.096626156709),
    (1.996041217224e-09, 2.101901889496, 17.2718840079),
    (2.687593060336e-09, 1.526689456959, 70.75506709219),
    (2.61891367081e-09, 2.397684236095, 6.632000300961),
    (2.571523050364e-09, 0.5751929456787, 6.206810014183),
    (2.582135006946e-09, 5.595464352926, 48.73985990671),
    (2.372530190361e-09, 5.092689490655, 15.90676413561),
    (2.357178484712e-09, 4.444363527851, 3.097883698531),
    (2.451590394723e-09, 3.108251687661, 0.6612329252343),
    (2.370045949608e-09, 2.608133861079, 34.59636466239),
    (2.268997267358e-09, 3.639717753384, 0.0284491405673),
    (1.731432137906e-09, 0.1741898445707, 20.19909489111),
    (1.629869741622e-09, 3.902225646724, 30.355997308),
    (2.206215801974e-09, 4.971131250731, 6.281667977667),
    (2.20546955468e-09, 1.67746235711, 6.284483723224),
    (2.148792362509e-09, 4.236259604006, 19.80482729015),
    (1.873733657847e-09, 5.926814998687, 28.76692439167),
    (2.026573758959e-09, 4.349643351962, 24.49240616245),
    (1.80777032511e-09, 5.700940482701, 20.45286941806),
    (1.881174408581e-09, 0.660128636343, 23.58125818164),
    (1.36802367169e-09, 2.211098592752, 24.73415438279),
    (1.72001791628e-09, 4.942488551129, 167.9593901136),
    (1.702427665131e-09, 1.452233856386, 333.8575901272),
    (1.414032510054e-09, 5.525357721439, 162.4205518357),
    (1.652626045364e-09, 4.108794283624, 89.56999012),
    (1.642957769686e-09, 0.7344335209984, 52.67006960365),
    (1.614952403624e-09, 3.541213951363, 33.32657872986),
    (1.535988291188e-09, 4.031094072151, 38.52657435933),
    (1.593193738177e-09, 4.185136203609, 228.2781046519),
    (1.074569126382e-09, 1.720485636868, 83.97383534231),
    (1.074408214509e-09, 2.758613420318, 84.01985929482),
    (9.700199670465e-10, 4.216686842097, 78.2637094218),
    (1.258433517061e-09, 0.2575068876639, 311.5650189215),
    (1.240303229539e-09, 0.4800844956756, 178.430047191),
    (9.018345948127e-10, 0.3896756361552, 58.86454391678),
    (1.135301432805e-09, 0.370080502355, 78.42370451713),
    (9.21588795137e-10, 4.364579276638, 101.4262087719),
    (1.055401054147e-09, 2.156564222111, 56.60027930059),
    (1.008725979831e-09, 5.454015785234, 42.45678405627),
    (7.217398104321e-10, 1.597772562175, 245.7074661053),
    (6.912033134447e-10, 5.824090621461, 167.9936946371),
    (6.833881523549e-10, 3.578778482835, 60.53048899753),
    (4.887304205142e-10, 3.724362812423, 96.56299901946),
    (5.173709754788e-10, 5.422427507933, 244.2876000072),
    (4.671353097145e-10, 2.396106924439, 143.5713242844),
    (5.65260843948e-10, 2.804028838685, 83.65903305582),
    (5.604061331253e-10, 1.638816006247, 84.33466158131),
    (4.7127233654e-10, 0.8979003224474, 316.4282286739),
    (4.909967465112e-10, 3.210426725516, 405.9982187939),
    (4.771358267658e-10, 5.308027211629, 180.5255418145),
    (3.943451445989e-10, 2.195145341074, 256.8537517081),
    (3.952109120244e-10, 5.081189491586, 244.9975330562),
    (3.788134594789e-10, 4.345171264441, 156.8131045107),
    (3.738330190479e-10, 2.613062847997, 394.851933191),
    (3.099866678136e-10, 2.846760817689, 154.7176098872),
    (2.002962716768e-10, 4.921360989412, 226.8582385539),
    (2.198291338754e-10, 0.1130360117454, 165.8638954901),
    (1.491958330784e-10, 4.228195232278, 221.9950288015),
    (1.475384076173e-10, 0.3005721811604, 305.281943071),
    (1.661626624624e-10, 0.7830125621203, 252.6661704812),
    (9.015823460025e-11, 3.807792942715, 417.1445043968),
];
pub static E0_Y: Terms = &[
    (0.9998921098898, 0.1826583913846, 6.283075850446),
    (-0.02442700893735, 0.0, 0.0),
    (0.008352929742915, 0.139527799868, 12.56615170089),
    (0.0001046697300177, 0.09641423109763, 18.84922755134),
    (3.110841876663e-05, 5.381140401712, 83.99684731857),
    (2.570269094593e-05, 5.301016407128, 0.5296909721118),
    (2.14738962361e-05, 2.66251086985, 1.577343543434),
    (1.68034438405e-05, 5.207904119704, 6.279552690824),
    (1.679117312193e-05, 4.582187486968, 6.286599010068),
    (1.44051206844e-05, 1.900688517726, 2.352866153506),
    (1.135139664999e-05, 5.273108538556, 5.223693906222),
    (9.345482571018e-06, 4.503047687738, 12.03646072878),
    (9.007418719568e-06, 1.605621059637, 10.21328554739),
    (5.671536712314e-06, 0.5812849070861, 1.059381944224),
    (7.451401861666e-06, 2.807346794836, 0.3981490189893),
    (6.393470057114e-06, 6.029224133855, 5.753384878334),
    (6.814275881697e-06, 0.6472990145974, 4.705732307012),
    (6.113705628887e-06, 3.8138434197, 6.812766822558),
    (4.503851367273e-06, 4.527804370996, 5.884926831456),
    (4.522249141926e-06, 5.991783029224, 6.256777527156),
    (4.501794307018e-06, 3.798703844397, 6.309374173736),
    (5.51492748018e-06, 3.961257833388, 5.507553240374),
    (4.062862799995e-06, 5.256247296369, 6.681224869435),
    (5.414900429712e-06, 5.499032014097, 0.775522610072),
    (5.463153987424e-06, 6.173092454097, 14.14349524433),
    (5.071611859329e-06, 2.870244247651, 7.86041939388),
    (2.195112094455e-06, 2.952338617201, 11.50676975667),
    (2.279139233919e-06, 5.951775132933, 7.058598460518),
    (2.278386100876e-06, 4.845456398785, 4.69400293411),
    (2.559088003308e-06, 0.6945321117311, 12.1680026819),
    (2.561079286856e-06, 6.167224608301, 0.7099330490126),
    (1.792755796387e-06, 1.400122509632, 0.7962980379786),
    (1.818715656502e-06, 4.70334761183, 6.28314298587),
    (1.818744924791e-06, 5.086748900237, 6.283008715021),
    (1.55451879139e-06, 0.05331008042713, 25.13230340178),
    (2.063265737239e-06, 4.283680484178, 11.79062909082),
    (1.497613520041e-06, 6.074207826073, 5.486777812467),
    (2.000617940427e-06, 2.50142628145, 17.78984560711),
    (1.28973119558e-06, 3.646340599536, 7.079373888424),
    (1.282657998934e-06, 3.232864804902, 3.738761453707),
    (1.528915968658e-06, 5.581433416669, 0.2132990797783),
    (1.187304098432e-06, 5.453576453694, 9.437762937313),
    (7.842782928118e-07, 0.2823953922273, 8.827390247185),
    (7.352892280868e-07, 1.124369580175, 1.589072916335),
    (6.570189360797e-07, 2.08915404284, 11.76985366291),
    (6.32496759041e-07, 0.670485558123, 6.262300422539),
    (6.298289872283e-07, 2.83641485584, 6.303851278352),
    (6.476686465855e-07, 0.4852433866467, 0.0071134546679),
    (8.587034651234e-07, 1.453511005668, 167.2837615881),
    (8.068948788113e-07, 0.9224087798609, 6.069776770667),
    (8.353786011661e-07, 4.631707184895, 3.340612434717),
    (6.009324532132e-07, 1.829498827726, 4.136910472696),
    (7.558158559566e-07, 2.588596800317, 6.496374930224),
    (5.809279504503e-07, 0.5516818853476, 10.97707878456),
    (5.374131950254e-07, 6.27567473496, 1.194447056968),
    (5.711160507326e-07, 1.091905956872, 6.282095334605),
    (5.710183170746e-07, 2.41500163509, 6.284056366286),
    (5.14437359061e-07, 6.020336443438, 6.290189305114),
    (5.103108927267e-07, 3.775634564605, 6.275962395778),
    (4.960654697891e-07, 1.073450946756, 6.127655567643),
    (4.78638568928e-07, 2.43117801231, 6.438496133249),
    (6.109911263665e-07, 5.343356157914, 3.154687086868),
    (4.839898944024e-07, 0.05830833594047, 0.8018209333619),
    (4.734822623919e-07, 4.536080134821, 3.128388763578),
    (4.83474147329e-07, 0.2585090489754, 7.084896783808),
    (5.134858581156e-07, 4.213317172603, 12.35285262111),
    (5.064004264978e-07, 0.4814418806478, 11.85621865188),
    (3.753476772761e-07, 1.599953399788, 8.429241228195),
    (4.935264014283e-07, 2.157417556873, 2.544314396739),
    (3.950929600897e-07, 3.359394184254, 5.481254917084),
    (4.895849789777e-07, 5.165704376558, 9.225539266174),
    (4.215241688886e-07, 2.065368800993, 17.260154635),
    (3.796773731132e-07, 1.468606346612, 0.4265981595566),
    (3.114178142515e-07, 3.615638079474, 2.14616537775),
    (3.260664220838e-07, 4.417134922435, 4.164311961999),
    (3.976996123008e-07, 4.700866883004, 5.856477690889),
    (2.801459672924e-07, 4.538902060922, 12.56967486051),
    (3.638931868861e-07, 1.334197991475, 18.07370494127),
    (2.487013269476e-07, 3.749275558275, 0.0262983232899),
    (3.034165481994e-07, 0.4236622030873, 4.535059491685),
    (2.676278825586e-07, 5.970848007811, 3.93020969694),
    (2.764903818918e-07, 5.194636754501, 12.56262854127),
    (2.485149930507e-07, 1.002434207846, 5.088628793478),
    (2.199305540941e-07, 3.066773098403, 12.55903824622),
    (2.571106500435e-07, 0.7588312459063, 13.36797263425),
    (2.049751817158e-07, 3.444977434856, 11.37170464392),
    (2.599707296297e-07, 1.873128542205, 71.43069561767),
    (1.785018072217e-07, 5.015891306615, 1.74801635876),
    (2.324833891115e-07, 4.61827123973, 18.31953657923),
    (1.709711119545e-07, 5.300003455669, 4.933208510675),
    (2.107159351716e-07, 2.229819815115, 7.477522907414),
    (1.750333080295e-07, 6.161485880008, 10.44738781244),
    (2.000598210339e-07, 2.967357299999, 8.031092209206),
    (1.380920248681e-07, 3.027007923917, 8.635942003952),
    (1.412460470299e-07, 6.037597163798, 2.942463415728),
    (1.888459803001e-07, 0.8561476243374, 156.1374759853),
    (1.788370542585e-07, 4.869736290209, 1.592596075957),
    (1.360893296167e-07, 3.626411886436, 13.095842673),
    (1.50684653016e-07, 1.550975377427, 16.49636139783),
    (1.800913376176e-07, 2.07582603319, 17.29818233119),
    (1.436261390649e-07, 6.148876420255, 20.42657109477),
    (1.220227114151e-07, 4.382583879906, 7.632943190217),
    (1.337883603592e-07, 2.036644327361, 12.13955354133),
    (1.159326650738e-07, 3.892276994687, 5.331357529664),
    (1.352853128569e-07, 1.447950649744, 16.73046366289),
    (1.433408296083e-07, 4.457854692961, 7.342457794669),
    (1.234701666518e-07, 1.538818147151, 6.2794855554),
    (1.234027192007e-07, 1.96852322076, 6.286666145492),
    (1.244024091797e-07, 5.779803499985, 15.11046609763),
    (1.097934945516e-07, 0.6210975221388, 10.98880815746),
    (1.254611329856e-07, 2.591963807998, 15.72083878776),
    (1.158247286784e-07, 2.48361281267, 5.729506548653),
    (9.03907825296e-08, 3.857554579796, 9.623688285163),
    (9.108024978836e-08, 5.826368512984, 7.234794171227),
    (8.887068108436e-08, 3.475694573987, 6.148010737701),
    (8.632374035438e-08, 0.03059070488983, 6.41814096319),
    (7.893186992967e-08, 1.583194837728, 2.118763888447),
    (8.297650201172e-08, 0.8519770534637, 14.71231707864),
    (1.019759578988e-07, 0.1319598738732, 1.349867339771),
    (1.010037696236e-07, 0.9937860115618, 6.836645152238),
    (1.047727548266e-07, 1.382138405399, 5.999216516294),
    (7.351993881086e-08, 3.833397851735, 6.04034711426),
    (9.868771092341e-08, 2.12491381439, 6.566935184597),
    (7.00732195939e-08, 5.946305343763, 6.525804586632),
    (6.861411679709e-08, 4.574654977089, 7.238675589263),
    (7.554519809614e-08, 5.949232686844, 12.5398533776),
    (9.541880448335e-08, 3.495242990564, 21.22839202813),
    (7.185606722155e-08, 4.310113471661, 6.245048154254),
    (7.13136087171e-08, 5.48030932365, 6.321103546637),
    (6.651142021039e-08, 5.411097713654, 5.327476111629),
    (8.538618213667e-08, 1.827849973951, 11.01510648075),
    (8.634954288044e-08, 5.443584943349, 5.643178611111),
    (7.449415051484e-08, 2.01153545906, 0.5368044267797),
    (7.421047599169e-08, 3.464562529249, 23.54323048545),
    (6.140694354424e-08, 5.657556228815, 12.96430071988),
    (6.353525143033e-08, 3.463816593821, 1.990745094947),
    (6.221964013447e-08, 1.532259498697, 0.9517183207817),
    (5.852480257244e-08, 1.375396598875, 0.9555997388169),
    (6.398637498911e-08, 2.405645801972, 24.07292145756),
    (7.039744069878e-08, 5.397541799027, 0.5225775174439),
    (6.977997694382e-08, 4.762347105419, 10.97355562493),
    (7.460629558396e-08, 2.711944692164, 22.0039146382),
    (5.376577536101e-08, 2.352980430239, 14.31416805965),
    (7.530607893556e-08, 1.943940180699, 18.42262939178),
    (6.822928971605e-08, 4.337651846959, 0.1554202828031),
    (6.220772380094e-08, 0.6716871369278, 18.45107853235),
    (6.586950799043e-08, 2.229714460505, 5.216580451554),
    (5.873800565771e-08, 0.762701392058, 0.6398972393349),
    (6.264346929745e-08, 0.6202785478961, 6.277552955062),
    (6.257929115669e-08, 2.886775596668, 6.288598745829),
    (5.343536033409e-08, 1.977241012051, 4.690479774488),
    (5.587849781714e-08, 1.922923484825, 1.551045220144),
    (6.905100845603e-08, 3.570757164631, 0.1030928125552),
    (6.178957066649e-08, 5.197558947765, 5.23080736089),
    (6.187270224331e-08, 0.8193497368922, 5.650292065779),
    (5.385664291426e-08, 5.406336665586, 77.71377146812),
    (6.329363917926e-08, 2.837760654536, 26.0879031406),
    (4.546018761604e-08, 2.93358029705, 0.5535693017924),
    (6.196091049375e-08, 4.157871494377, 84.67247584405),
    (6.159555108218e-08, 3.211703561703, 239.4243902548),
    (4.995340539317e-08, 1.459098102922, 4.732030630302),
    (5.457031243572e-08, 1.430457676136, 6.17998303789),
    (4.863461418397e-08, 2.19642591673, 90.27992316901),
    (5.34294762687e-08, 2.086612890268, 6.386168663001),
    (5.674296648439e-08, 2.760204966535, 6.915859635113),
    (4.745783120161e-08, 4.245368971862, 6.282970628506),
    (4.745676961198e-08, 5.544725787016, 6.283181072386),
    (4.049796869973e-08, 2.213984363586, 6.254626709878),
    (4.24833359694e-08, 0.8075781952896, 7.875671926403),
    (4.027178070205e-08, 1.293268540378, 6.311524991013),
    (4.066543943476e-08, 3.986141175804, 3.634620989887),
    (4.85886378788e-08, 1.276112738231, 5.760498333002),
    (5.27739826353e-08, 4.916111741527, 25.15860172507),
    (4.105635656559e-08, 1.725805864426, 6.709674010002),
    (4.376781925772e-08, 2.243642442106, 6.80565336789),
    (3.235827894693e-08, 3.614135118271, 1.066495398892),
    (3.073244740308e-08, 2.46087339346, 5.863591145557),
    (3.088609271373e-08, 5.67843177179, 9.917696840332),
    (3.393022279836e-08, 3.814017477291, 13.91601904066),
    (3.038686508802e-08, 4.660216229171, 12.56621883632),
    (4.019677752497e-08, 5.906906243735, 13.34167431096),
    (3.288834998232e-08, 0.9536146445882, 16.20077269078),
    (3.889973794631e-08, 3.942205097644, 0.0747816656905),
    (3.050438987141e-08, 1.624810271286, 18.05292951336),
    (3.601142564638e-08, 4.030467142575, 6.208294184755),
    (3.689015557141e-08, 3.648878818694, 5.966683958112),
    (3.563471893565e-08, 5.749584017096, 6.357857516136),
    (2.776183170667e-08, 2.63012418707, 0.003523159621801),
    (2.922350530341e-08, 1.790346403629, 12.72157198369),
    (3.511076917302e-08, 6.142198301611, 6.599467742779),
    (3.619351007632e-08, 1.432421386492, 6.019991944201),
    (2.561254711098e-08, 2.302822475792, 12.59245002418),
    (2.62690394292e-08, 0.8660470994571, 6.702560555334),
    (2.550187397083e-08, 6.069721995383, 10.57540660594),
    (2.535873526138e-08, 0.01079020331795, 31.41537925223),
    (3.519786153847e-08, 3.809066902283, 250.5706758577),
    (3.424651492873e-08, 2.075435114417, 6.546159756691),
    (2.372676630861e-08, 2.057803120154, 2.388894113936),
    (2.710980779541e-08, 1.51006848801, 12.02934727411),
    (3.038710889704e-08, 5.043617528901, 12.56608456547),
    (2.220364130585e-08, 3.694793218205, 13.36244973887),
    (3.02588082546e-08, 0.05450618999049, 29.08881142201),
    (2.784493486864e-08, 3.381164084502, 14.94531617769),
    (2.294414142438e-08, 4.38230902521, 6.076890225335),
    (2.012723294724e-08, 0.9142212256518, 6.262720680387),
    (2.036357831958e-08, 5.676172293154, 4.701116388778),
    (2.003474823288e-08, 2.592767977625, 6.303431020504),
    (2.207144900109e-08, 5.40497627118, 6.489261475556),
    (2.481664905135e-08, 4.373284587027, 12.04357418345),
    (2.674949182295e-08, 5.859182188482, 4.590910121555),
    (2.450554720322e-08, 4.555381557451, 0.149563331381),
    (2.601975986457e-08, 3.933165584959, 19.6510484847),
    (2.199860022848e-08, 5.227977189087, 13.51787002167),
    (2.448121172316e-08, 4.858060353949, 1.162474756779),
    (1.876014864049e-08, 5.690546553605, 6.27919443241),
    (1.874513219396e-08, 4.099539297446, 6.286957268481),
    (2.156380842559e-08, 0.4382594769913, 18.13929450232),
    (1.981691240061e-08, 1.829784152444, 4.686889479442),
    (2.329992648539e-08, 2.836254278973, 10.02183730415),
    (1.765184135302e-08, 2.803494925833, 4.292330755499),
    (2.436368366085e-08, 2.836897959677, 95.14313292143),
    (2.164089203889e-08, 6.127522446024, 6.037244212485),
    (1.847755034221e-08, 3.683163635008, 0.2427287361862),
    (1.674798769966e-08, 0.3316993867246, 13.11972100268),
    (2.222542124356e-08, 0.829409780548, 12.66924451345),
    (2.071074505925e-08, 3.659492220261, 6.528907488406),
    (1.608224471835e-08, 4.774492067182, 13.52175143971),
    (1.857583439071e-08, 2.873120597682, 8.662240327241),
    (1.793018836159e-08, 0.5282441177929, 6.819880277225),
    (1.575391221692e-08, 1.320789654258, 0.1102062672231),
    (1.840132009557e-08, 1.917110916256, 65.14761976723),
    (1.760917288281e-08, 2.972635937132, 5.746271423666),
    (1.561779518516e-08, 4.372569261981, 6.272439236156),
    (1.558687885205e-08, 5.416424926425, 6.293712464735),
    (1.951359382579e-08, 3.094448898752, 23.01353951334),
    (1.569144275614e-08, 2.802103689808, 17.65478049437),
    (1.479130389462e-08, 2.136435020467, 0.0207754279066),
    (1.467828510764e-08, 0.7072627435674, 1.052268489556),
    (1.62762733744e-08, 3.947607143237, 0.632783784667),
    (1.503498479758e-08, 4.07924890919, 0.0762658362624),
    (1.297967708237e-08, 6.26963712284, 11.499656302),
    (1.374416896634e-08, 4.175657970702, 6.016468784579),
    (1.783812325219e-08, 1.47654054756, 33.01902111895),
    (1.525884228756e-08, 4.653477715241, 9.411464614024),
    (1.451067396763e-08, 2.573001128225, 12.77945078067),
    (1.29771311195e-08, 5.612799618771, 6.549682916313),
    (1.46278401282e-08, 4.18966162387, 18.63592847156),
    (1.384185980007e-08, 2.656915472196, 2.379164476796),
    (1.221497599801e-08, 5.612515760138, 12.57326515556),
    (1.560574525896e-08, 4.783414317919, 18.87552587463),
    (1.544598372036e-08, 2.694431138063, 18.209330312),
    (1.531678928696e-08, 4.105103489666, 25.93412433514),
    (1.349321503795e-08, 0.3082437194015, 5.120601093667),
    (1.252030290917e-08, 6.124072334087, 6.993008899458),
    (1.459243816687e-08, 3.733103981697, 0.0381329181312),
    (1.226103625262e-08, 1.267127706817, 24.35678079171),
    (1.019449641504e-08, 4.367790112269, 17.25663147538),
    (1.380789433607e-08, 3.3872017687, 0.2458316379602),
    (1.019453421658e-08, 0.9204143073737, 6.112403035119),
    (1.297929434405e-08, 5.786874896426, 12.4913700352),
    (9.912677786097e-09, 3.164232870746, 6.247047890016),
    (9.829386098599e-09, 2.586762413351, 6.453748665772),
    (1.226807746104e-08, 6.239068436607, 5.429879531333),
    (1.192691755997e-08, 1.867380051424, 6.290122169689),
    (9.836499227081e-09, 0.3424716293727, 6.319103810876),
    (9.642862564285e-09, 5.661372990657, 8.273820945392),
    (1.165184404862e-08, 5.768367239093, 17.78273215245),
    (1.175794418818e-08, 1.657351222943, 6.276029531202),
    (1.018948635601e-08, 0.6458292350865, 12.54537627298),
    (9.500383606676e-09, 1.054306140741, 12.56517118505),
    (1.227512202906e-08, 2.505278379114, 22.48384854122),
    (9.664792009993e-09, 4.289737277, 6.259197520765),
    (9.613285666331e-09, 5.500597673141, 6.306954180126),
    (1.117906736211e-08, 2.361405953468, 17.79695906178),
    (9.611378640782e-09, 2.851310576269, 0.2061856251104),
    (8.84535485237e-09, 6.208777705343, 1.692165728891),
    (1.0540469666e-08, 5.413091423934, 0.2204125344462),
    (1.215539124483e-08, 5.613969479755, 82.57698122054),
    (9.932460955209e-09, 1.106124877015, 10.17725758696),
    (8.785804715043e-09, 2.869224476477, 0.9491756770005),
    (8.538084097562e-09, 6.159640899344, 6.393282117669),
    (8.648994369529e-09, 1.374901198784, 4.804209201333),
    (1.039063219067e-08, 5.171080641327, 15.50861511662),
    (8.867983926439e-09, 0.8317320304902, 3.90391137365),
    (8.327495955244e-09, 3.60559196918, 6.172869583223),
    (9.243088356133e-09, 6.114299196843, 6.267823317922),
    (9.205657357835e-09, 3.675153683737, 6.298328382969),
    (1.033269714606e-08, 3.313328813024, 5.573142801433),
    (8.001706275552e-09, 2.019980960053, 2.648454860559),
    (9.171858254191e-09, 0.8992015524177, 149.8544001348),
    (1.075327150242e-08, 2.898669963648, 36.94923081589),
    (9.884866689828e-09, 4.946715904478, 11.40367694411),
    (9.541835576677e-09, 2.371787888469, 12.56713221673),
    (7.739903376237e-09, 2.213775190612, 7.83412107059),
    (7.311962684106e-09, 3.429378787739, 11.92625446156),
    (9.724904869624e-09, 6.195878564404, 22.80573557157),
    (9.251628983612e-09, 0.651150952739, 2.787043132925),
    (7.320763787842e-09, 6.001083639421, 6.282655592598),
    (7.320296650962e-09, 3.789073265087, 6.283496108294),
    (7.947032271039e-09, 1.059659582204, 12.41073141809),
    (9.005277053115e-09, 1.280315624361, 6.281591679874),
    (8.995601652048e-09, 2.224439106766, 6.284560021018),
    (8.288040568796e-09, 5.234914433867, 12.41658836951),
    (6.359381347255e-09, 4.13798944149, 1.596186371003),
    (8.699572228626e-09, 1.758411009497, 6.133512519065),
    (6.456797542736e-09, 5.919285089994, 16.85848245639),
    (7.424573475452e-09, 5.414616938827, 4.061219149443),
    (7.235671196168e-09, 1.496516557134, 161.0006857377),
    (8.104015182733e-09, 1.919918242764, 0.8460828644453),
    (8.098576535937e-09, 3.819615855458, 3.89418173651),
    (6.275292346625e-09, 6.244264115141, 0.8531963191132),
    (6.052432989112e-09, 0.503773187261, 15.67108171867),
    (5.705651535817e-09, 2.984557271995, 12.5869271288),
    (5.789650115138e-09, 6.087038140697, 11.93336791622),
    (5.512132153377e-09, 5.855668994076, 12.32342296471),
    (7.388890819102e-09, 2.44312857474, 4.907302013889),
    (5.467593991798e-09, 3.017561234194, 18.84211409667),
    (6.388519802999e-09, 5.887386712935, 52.1758062812),
    (6.106777149944e-09, 0.3483461059895, 0.0142269093358),
    (7.383420275489e-09, 5.417387056707, 23.58125818164),
    (5.505208141738e-09, 2.848193644783, 11.51388321134),
    (6.310757462877e-09, 2.349882520828, 10.41998632314),
    (6.166904929691e-09, 0.5728575944077, 6.151533897323),
    (5.263442042754e-09, 4.495796125937, 18.85275071096),
    (5.591828082629e-09, 1.355441967677, 0.4337116142245),
    (5.397051680497e-09, 1.673422864307, 6.286362197481),
    (5.396992745159e-09, 1.833502206373, 6.27978950341),
    (6.572913000726e-09, 3.331122065824, 11.76433076753),
    (5.123421866413e-09, 2.165327142679, 12.45594543367),
    (5.930495725999e-09, 2.931146089284, 6.414617803568),
    (6.431797403933e-09, 4.134407994088, 0.1350651127443),
    (5.003182207604e-09, 3.805420303749, 10.96996532989),
    (5.587731032504e-09, 1.082469260599, 6.062663316),
    (5.935263407816e-09, 0.8384333678401, 5.326786718777),
    (4.75601982776e-09, 3.552588749309, 3.104930017775),
    (6.599951172637e-09, 4.320826409528, 40.87944051283),
    (5.902606868464e-09, 4.811879454445, 5.849364236221),
    (5.921147809031e-09, 0.09942628922396, 1.581959461667),
    (5.505382581266e-09, 2.466557607764, 6.503488384892),
    (5.353771071862e-09, 4.551978748683, 173.5668374386),
    (5.063282210946e-09, 5.710812312425, 12.48988586463),
    (5.926120403383e-09, 1.333998428358, 26.73594526851),
    (5.211016176149e-09, 4.64931536076, 24.60261242967),
    (5.347075084894e-09, 5.512754081205, 4.171425416666),
    (4.872609773574e-09, 1.308025299938, 5.333900173445),
    (4.72771132142e-09, 2.144908368062, 7.232251527446),
    (6.029426018652e-09, 5.567259412084, 322.7113045244),
    (4.321485284369e-09, 5.230667156451, 9.388005868221),
    (4.476406760553e-09, 6.134081115303, 5.547199253223),
    (5.83526827742e-09, 4.783808492071, 72.8505617157),
    (5.172183602748e-09, 5.161817911099, 18.84570439172),
    (5.693571465184e-09, 1.381646203111, 97.23862754494),
    (4.060634965349e-09, 0.3876705259495, 4.274518229222),
    (3.967398770473e-09, 5.029491776223, 3.496032717521),
    (3.943754005255e-09, 1.92316295549, 6.244942932314),
    (4.781323427824e-09, 4.633332586423, 29.29661536378),
    (3.871483781204e-09, 1.616650009743, 6.321208768577),
    (5.141741733997e-09, 0.09817316704659, 12.32032006293),
    (4.002385978497e-09, 3.656161212139, 7.018952447668),
    (4.901092604097e-09, 4.404098713092, 1.478866649112),
    (3.740932630345e-09, 0.5181188732639, 6.922973089781),
    (4.387283718538e-09, 3.254859566869, 233.1413144044),
    (5.019197802033e-09, 3.086773224677, 17.15706182245),
    (3.834931695175e-09, 2.797882673542, 14.9190178544),
    (3.760413942497e-09, 2.892676280217, 17.26726808967),
    (3.719717204628e-09, 5.861046025739, 6.297302759782),
    (4.145623530149e-09, 2.168239627033, 13.76059875786),
    (3.93278842538e-09, 6.271811124181, 7.872148766781),
    (3.686377476857e-09, 3.936853151404, 6.26884894111),
    (3.779077950339e-09, 1.404148734043, 4.157198507331),
    (4.091334550598e-09, 2.452436180854, 9.779108567966),
    (3.926694536146e-09, 6.10229273904, 10.98419223922),
    (4.841000253289e-09, 6.072760457276, 12.52801878276),
    (4.94934013024e-09, 1.154832815171, 161.7106187867),
    (3.76155773736e-09, 5.527545321897, 3.185192151914),
    (3.647396268188e-09, 1.525035688629, 6.271346477544),
    (3.932405074189e-09, 5.570681040569, 21.39354194808),
    (3.631322501141e-09, 1.98124060116, 6.294805223347),
    (4.130007425139e-09, 2.050060880201, 21.95415756911),
    (4.433905965176e-09, 3.277477970321, 7.445550607224),
    (3.851814176947e-09, 5.210690074886, 0.9562891316684),
    (3.485807052785e-09, 0.6653274904611, 11.61697602389),
    (3.979772816991e-09, 1.767941436148, 22.77943724828),
    (3.4026074605e-09, 3.421746306465, 10.873985972),
    (4.049993000926e-09, 1.127144787547, 0.3163918923335),
    (3.420511182382e-09, 4.214794779161, 13.62553364512),
    (3.640772365012e-09, 5.324905497687, 17.25304118033),
    (3.323037987501e-09, 6.135761838271, 6.27914338782),
    (4.503141663637e-09, 1.802305450666, 1.385561574497),
    (4.314560055588e-09, 4.812299731574, 4.1760413349),
    (3.29422694911e-09, 3.657547059723, 6.287008313071),
    (3.215657197281e-09, 4.866676894425, 5.749861718712),
    (4.129362656266e-09, 3.809342558906, 5.905702259363),
    (3.137762976388e-09, 2.494635174443, 20.99539292909),
    (3.514010952384e-09, 2.699961831678, 7.335344340001),
    (3.32760757153e-09, 3.318457714816, 5.436992986),
    (3.541066946675e-09, 4.382703582466, 12.34573916645),
    (3.216179847052e-09, 5.271066317054, 0.0380276961914),
    (2.95904505957e-09, 5.819591585302, 26.70964694522),
    (3.884040326665e-09, 5.980934960428, 6.660449441528),
    (2.922027539886e-09, 3.337290282483, 1.375773836557),
    (4.110846382042e-09, 5.742978187327, 44.80965020977),
    (2.934508411032e-09, 2.2780758042, 0.6408777551755),
    (3.966896193e-09, 5.835747858477, 0.3773735910827),
    (3.28669582761e-09, 5.838898193902, 0.0039324626253),
    (3.720643094196e-09, 1.122212337858, 16.4603334374),
    (3.285508906174e-09, 0.9182250996416, 10.81813534213),
    (3.753880575973e-09, 5.174761973266, 5.64219809527),
    (3.022129385587e-09, 3.381611020639, 29.82630633589),
    (2.798569205621e-09, 3.546193723922, 19.37891852345),
    (3.397872070505e-09, 4.533203197934, 6.923953605621),
    (3.708099772977e-09, 2.756168198616, 30.66615496545),
    (3.59928354151e-09, 1.934395469918, 6.147450479709),
    (3.688702753059e-09, 0.7149920971109, 2.636725487657),
    (2.681084724003e-09, 4.899819493154, 6.816289982179),
    (3.495993460759e-09, 1.572418915115, 6.418701221183),
    (3.130770324995e-09, 0.8912190180489, 12.35996607578),
    (2.744353821941e-09, 3.800821940055, 20.5972439101),
    (2.842732906341e-09, 2.644717440029, 28.28699048865),
    (3.046882682154e-09, 3.987793020179, 6.055599646783),
    (2.399072455143e-09, 0.9908826440764, 6.255674361143),
    (2.384306274204e-09, 2.51614975222, 6.310477339748),
    (2.977324500559e-09, 5.849195642118, 16.52265972112),
    (3.062835258972e-09, 1.681660100162, 11.72006883645),
    (3.109682589231e-09, 0.5804143987737, 27.51146787858),
    (2.903920355299e-09, 5.800768280123, 6.510552054109),
    (2.823221989212e-09, 0.9241118370216, 5.469525544182),
    (3.187949696649e-09, 3.139776445735, 169.3792562116),
    (2.922559771655e-09, 3.549440782984, 0.263083906245),
    (2.436302066603e-09, 4.735540696319, 0.3946258593675),
    (3.049473043606e-09, 4.998289124561, 8.390110365991),
    (2.863682575784e-09, 0.6709515671102, 0.2243449970715),
    (2.641750517966e-09, 5.410978257284, 29.86433403208),
    (2.704093466243e-09, 4.778317207821, 6.129297044991),
    (2.445522177011e-09, 6.009020662222, 11.71295538178),
    (2.62360881023e-09, 5.010449777147, 6.436854655901),
    (2.079259704053e-09, 5.980943768809, 20.19909489111),
    (2.820225596771e-09, 2.679965110468, 5.93415139993),
    (2.365221950927e-09, 1.89423114881, 24.70570524223),
    (2.359682077149e-09, 4.22075295078, 8.671969964381),
    (2.387577137206e-09, 2.571783940617, 7.096626156709),
    (1.982102089816e-09, 0.5169765997119, 17.2718840079),
    (2.687502389925e-09, 6.239078264579, 70.75506709219),
    (2.207751669135e-09, 2.031184412677, 4.377611041777),
    (2.618370214274e-09, 0.8266079985979, 6.632000300961),
    (2.591951887361e-09, 0.8819350522008, 48.73985990671),
    (2.375055656248e-09, 3.520944177789, 15.90676413561),
    (2.472019978911e-09, 1.551431908671, 0.6612329252343),
    (2.368157127199e-09, 4.178610147412, 34.59636466239),
    (1.764846605693e-09, 1.506764000157, 19.80094587212),
    (2.291769608798e-09, 2.118250611782, 0.0284491405673),
    (2.209997316943e-09, 3.363255261678, 0.2666070658668),
    (2.292699097923e-09, 0.420042395646, 0.0014841705719),
    (1.629683015329e-09, 2.331362582487, 30.355997308),
    (2.206492862426e-09, 3.400274026992, 6.281667977667),
    (2.205746568257e-09, 0.1066051230724, 6.284483723224),
    (2.026310767991e-09, 2.779066487979, 24.49240616245),
    (1.762977622163e-09, 0.995145069184, 20.45286941806),
    (1.368535049606e-09, 0.6402447365817, 24.73415438279),
    (1.72059877545e-09, 0.2303524214705, 167.9593901136),
    (1.702429015449e-09, 6.164622655048, 333.8575901272),
    (1.414033197685e-09, 3.95456118558, 162.4205518357),
    (1.573768958043e-09, 2.028286308984, 31.44167757552),
    (1.650705184447e-09, 2.304040666128, 52.67006960365),
    (1.651087618855e-09, 2.53846105728, 89.56999012),
    (1.616409518983e-09, 5.111054348152, 33.32657872986),
    (1.537175173581e-09, 5.601130666603, 38.52657435933),
    (1.593191980553e-09, 2.614340453411, 228.2781046519),
    (1.499480170643e-09, 3.624721577264, 28.23723341956),
    (1.493807843235e-09, 4.214569879008, 28.76692439167),
    (1.074571199328e-09, 0.1496911744704, 83.97383534231),
    (1.074406983417e-09, 1.187817671922, 84.01985929482),
    (9.757576855851e-10, 2.655703035858, 78.2637094218),
    (1.258432887565e-09, 4.969896184844, 311.5650189215),
    (1.240336343282e-09, 5.192460776926, 178.430047191),
    (9.016107005164e-10, 1.960356923057, 58.86454391678),
    (1.135392360918e-09, 5.082427809068, 78.42370451713),
    (9.216046089565e-10, 2.793775037273, 101.4262087719),
    (1.06127661503e-09, 3.726144311409, 56.60027930059),
    (1.010110596263e-09, 0.7404080708937, 42.45678405627),
    (7.217424756199e-10, 0.02697449980577, 245.7074661053),
    (6.912003846756e-10, 4.253296276335, 167.9936946371),
    (6.871814664847e-10, 5.148072412354, 60.53048899753),
    (4.887158016343e-10, 2.153581148294, 96.56299901946),
    (5.161802866314e-10, 3.852750634351, 244.2876000072),
    (5.652599559057e-10, 1.23323335627, 83.65903305582),
    (4.710812608586e-10, 5.610486976767, 316.4282286739),
    (4.909977500324e-10, 1.639629524123, 405.9982187939),
    (4.772641839378e-10, 3.737100368583, 180.5255418145),
    (4.487562567153e-10, 0.1158417054478, 84.33466158131),
    (3.943441230497e-10, 0.6243502862796, 256.8537517081),
    (3.952236913598e-10, 3.510377382385, 244.9975330562),
    (3.788898363417e-10, 5.916128302299, 156.8131045107),
    (3.738329328831e-10, 1.042266763456, 394.851933191),
    (2.451199165151e-10, 1.1667884357, 143.5713242844),
    (2.436734402904e-10, 3.254726114901, 226.8582385539),
    (2.213605274325e-10, 1.68721059853, 165.8638954901),
    (1.491521204829e-10, 2.657541786794, 221.9950288015),
    (1.474995329744e-10, 5.013089805819, 305.281943071),
    (1.661939475656e-10, 5.495315428418, 252.6661704812),
    (9.015946748003e-11, 2.236989966505, 417.1445043968),
];
pub static E0_Z: Terms = &[
    (2.796207639075e-06, 3.198701560209, 84.33466158131),
    (1.016042198142e-06, 5.422360395913, 5.507553240374),
    (8.044305033647e-07, 3.880222866652, 5.223693906222),
    (4.385347909274e-07, 3.704369937468, 2.352866153506),
    (3.186156414906e-07, 3.999639363235, 1.577343543434),
    (2.272412285792e-07, 3.984738315952, 1.047747311755),
    (1.645620103007e-07, 3.565412516841, 5.856477690889),
    (1.815836921166e-07, 4.98450705902, 6.283075850446),
    (1.447461676364e-07, 3.702753570108, 9.437762937313),
    (1.430760876382e-07, 3.409658712357, 10.21328554739),
    (1.120445753226e-07, 4.829561570246, 14.14349524433),
    (1.090232840797e-07, 2.080729178066, 6.812766822558),
    (9.715727346551e-08, 3.476295881948, 4.69400293411),
    (1.036267136217e-07, 4.056639536648, 71.09288135493),
    (8.75266527134e-08, 4.448159519911, 5.753384878334),
    (8.331864956004e-08, 4.991704044208, 7.084896783808),
    (6.901658670245e-08, 4.325358994219, 6.275962395778),
    (9.144536848998e-08, 1.141826375363, 6.620890113188),
    (7.205085037435e-08, 3.624344170143, 0.5296909721118),
    (7.697874654176e-08, 5.554257458998, 167.6215758509),
    (5.197545738384e-08, 6.251760961735, 18.07370494127),
    (5.031345378608e-08, 2.497341091913, 4.705732307012),
    (4.52711020584e-08, 2.335079920992, 6.309374173736),
    (4.753355798089e-08, 0.7094148987474, 5.884926831456),
    (4.296951977516e-08, 1.101916352091, 6.681224869435),
    (3.855341568387e-08, 1.825495405486, 5.486777812467),
    (5.25393097099e-08, 4.424740687208, 7.86041939388),
    (4.024630496471e-08, 5.120498157053, 13.36797263425),
    (4.061069791453e-08, 6.029771435451, 3.93020969694),
    (3.797883804205e-08, 0.4435193600836, 3.154687086868),
    (2.933033225587e-08, 5.124157356507, 1.059381944224),
    (3.503000930426e-08, 5.421830162065, 6.069776770667),
    (3.67009621405e-08, 4.582101667297, 12.19403291462),
    (2.905609437008e-08, 1.926566420072, 10.97707878456),
    (2.466827821713e-08, 0.6090174539834, 6.496374930224),
    (2.691647295332e-08, 1.393432595077, 22.0039146382),
    (2.150554667946e-08, 4.308671715951, 5.643178611111),
    (2.23748192268e-08, 0.8133968269414, 8.635942003952),
    (1.817741038157e-08, 3.755205127454, 3.340612434717),
    (2.227820762132e-08, 2.759558596664, 12.03646072878),
    (1.944713772307e-08, 5.699645869121, 11.79062909082),
    (1.527340520662e-08, 1.986749091746, 0.3981490189893),
    (1.577282574914e-08, 3.205017217983, 5.088628793478),
    (1.424738825424e-08, 6.256747903666, 2.544314396739),
    (1.616563121701e-08, 0.2601671259394, 17.29818233119),
    (1.401210391692e-08, 4.686939173506, 7.058598460518),
    (1.488726974214e-08, 2.815862451372, 25.93412433514),
    (1.692626442388e-08, 4.956894109797, 156.475290248),
    (1.12357158291e-08, 2.381192697696, 3.738761453707),
    (9.903308606317e-09, 4.294851657684, 9.225539266174),
    (9.174533187191e-09, 3.075171510642, 4.164311961999),
    (8.645985631457e-09, 0.5477534821633, 8.429241228195),
    (-1.085876492688e-08, 0.0, 0.0),
    (9.264309077815e-09, 5.968571670097, 7.079373888424),
    (8.243116984954e-09, 1.489098777643, 10.44738781244),
    (8.268102113708e-09, 3.512977691983, 11.50676975667),
    (9.043613988227e-09, 0.1290704408221, 11.01510648075),
    (7.432912038789e-09, 1.991086893337, 26.0879031406),
    (8.586233727285e-09, 4.238357924414, 29.86433403208),
    (7.612230060131e-09, 2.911090150166, 4.732030630302),
    (7.097787751408e-09, 1.90893839239, 8.031092209206),
    (7.640237040175e-09, 0.6129219000168, 0.7962980379786),
    (7.070445688081e-09, 1.380417036651, 2.14616537775),
    (7.690770957702e-09, 1.680504249084, 21.22839202813),
    (8.051292542594e-09, 5.127423484511, 2.942463415728),
    (5.902709104515e-09, 2.020274190917, 0.775522610072),
    (5.134567496462e-09, 2.606778676418, 12.56615170089),
    (5.525802046102e-09, 1.613011769663, 0.8018209333619),
    (5.880724784221e-09, 4.604483417236, 4.690479774488),
    (5.21169908137e-09, 5.718964114193, 8.827390247185),
    (4.891849573562e-09, 3.689658932196, 0.2132990797783),
    (5.150246069997e-09, 4.099769855122, 64.80980550449),
    (5.102434319633e-09, 5.660834602509, 33.79454372902),
    (5.083405254252e-09, 0.9842221218974, 4.136910472696),
    (4.206562585682e-09, 0.1341363634163, 3.128388763578),
    (4.663249683579e-09, 0.8130132735866, 5.216580451554),
    (4.09947441653e-09, 5.791497770644, 0.4265981595566),
    (4.628251220767e-09, 1.249802769331, 15.72083878776),
    (5.024068728142e-09, 4.795684802743, 6.290189305114),
    (5.120234327758e-09, 3.810420387208, 5.23080736089),
    (5.52402981528e-09, 1.029264714351, 239.7622045175),
    (4.75741571886e-09, 3.528044781779, 16.49636139783),
    (3.915786131127e-09, 5.593889282646, 1.589072916335),
    (4.869053149991e-09, 3.299636454433, 7.632943190217),
    (3.649365703729e-09, 1.286049002584, 6.206810014183),
    (3.992493949002e-09, 3.100307589464, 25.15860172507),
    (3.320247477418e-09, 6.212683940807, 12.1680026819),
    (3.287123739696e-09, 4.699118445928, 7.234794171227),
    (3.472776811103e-09, 2.630507142004, 7.342457794669),
    (3.423253294767e-09, 2.946432844305, 9.623688285163),
    (3.896173898244e-09, 1.224834179264, 6.438496133249),
    (3.388455337924e-09, 1.543807616351, 14.94531617769),
    (3.062704716523e-09, 1.19177757231, 8.662240327241),
    (3.2700756004e-09, 5.483498767737, 1.194447056968),
    (3.101209215259e-09, 0.8000833804348, 37.72475342596),
    (2.780883347311e-09, 0.4077980721888, 5.863591145557),
    (2.903605931824e-09, 2.617490302147, 19.6510484847),
    (2.682014743119e-09, 2.63470315829, 7.238675589263),
    (2.534360108492e-09, 6.102446114873, 6.836645152238),
    (2.392564882509e-09, 3.681820208691, 5.849364236221),
    (2.656667254856e-09, 6.216045388886, 6.133512519065),
    (2.331242096773e-09, 5.864949777744, 4.535059491685),
    (2.287898363668e-09, 4.566628532802, 7.477522907414),
    (2.336944521306e-09, 2.44272212693, 11.37170464392),
    (3.156632236269e-09, 1.626628050682, 250.9084901204),
    (2.982612402766e-09, 2.803604512609, 1.74801635876),
    (2.774031674807e-09, 4.654002897158, 82.2391669578),
    (2.295236548638e-09, 4.326518333253, 0.3378142627421),
    (2.190714699873e-09, 4.519614578328, 29.08881142201),
    (2.191495845045e-09, 3.012626912549, 16.73046366289),
    (2.492901628386e-09, 0.1290101424052, 154.3797956245),
    (1.993778064319e-09, 3.864046799414, 17.78984560711),
    (1.898146479022e-09, 5.053777235891, 20.42657109477),
    (1.918280127634e-09, 2.222470192548, 41.6549631229),
    (1.916351061607e-09, 0.8719067257774, 77.37595720538),
    (1.834720181466e-09, 4.03149109804, 23.58125818164),
    (1.249201523806e-09, 5.938379466835, 33.01902111895),
    (1.477304050539e-09, 0.6544722606797, 95.48094718417),
    (1.264316431249e-09, 2.059072853236, 83.99684731857),
    (1.203526495039e-09, 3.644813532605, 45.58517281984),
    (9.221681059831e-10, 3.241815055602, 78.05158573086),
    (7.849278367646e-10, 5.043812342457, 52.1758062812),
    (7.983392077387e-10, 5.000024502753, 150.1922143975),
    (7.925395431654e-10, 0.01398734871821, 90.61773743175),
    (7.640473285886e-10, 5.06711172313, 49.51538251678),
    (5.398937754482e-10, 5.597382200075, 161.3385000004),
    (5.626247550193e-10, 2.601338209422, 73.18837597844),
    (5.525197197855e-10, 5.814832109256, 143.2335100216),
    (5.407629837898e-10, 3.384820609076, 323.0491187871),
    (3.856739119801e-10, 1.072391840473, 233.4791286671),
    (3.856425239987e-10, 2.369540393327, 173.9046517013),
    (4.350867755983e-10, 5.255575751082, 162.0484330494),
    (3.844113924996e-10, 5.482356246182, 97.57644180768),
    (2.854869155431e-10, 0.9573634763143, 169.7170704744),
    (1.719227671416e-10, 1.887203025202, 226.5204242912),
    (1.527846879755e-10, 3.982183931157, 334.19540439),
    (1.128229264847e-10, 2.787457156298, 311.9028331842),
];
pub static E1_X: Terms = &[
    (1.234046326004e-06, 0.0, 0.0),
    (5.150068824701e-07, 6.002664557501, 12.56615170089),
    (1.290743923245e-08, 5.959437664199, 18.84922755134),
    (1.068615564952e-08, 2.015529654209, 6.283075850446),
    (2.079619142538e-09, 1.732960531432, 6.279552690824),
    (2.078009243969e-09, 4.915604476996, 6.286599010068),
    (6.206330058856e-10, 0.3616457953824, 4.705732307012),
    (5.989335313746e-10, 3.802607304474, 6.256777527156),
    (5.95849566384e-10, 2.845866560031, 6.309374173736),
    (4.866923261539e-10, 5.213203771824, 0.775522610072),
    (4.267785823142e-10, 0.4368189727818, 1.059381944224),
    (4.610675141648e-10, 0.01837249181372, 7.86041939388),
    (3.626989993973e-10, 2.161590545326, 5.753384878334),
    (3.563071194389e-10, 1.452631954746, 5.884926831456),
    (3.557015642807e-10, 4.470593393054, 6.812766822558),
    (3.210412089122e-10, 5.195926078314, 6.681224869435),
    (2.875473577986e-10, 5.916256610193, 25.13230340178),
    (2.842913681629e-10, 1.149902426047, 6.127655567643),
    (2.751248215916e-10, 5.502088574662, 6.438496133249),
    (2.481432881127e-10, 2.921989846637, 5.486777812467),
    (2.05988597656e-10, 3.718070376585, 7.079373888424),
    (2.015522342591e-10, 5.97939525974, 6.290189305114),
    (1.995364084253e-10, 0.6772087985494, 6.275962395778),
    (1.957436436943e-10, 2.899210654665, 5.507553240374),
    (1.651609818948e-10, 6.228206482192, 11.50676975667),
    (1.822980550699e-10, 1.469348746179, 11.79062909082),
    (1.67522315976e-10, 3.813910555688, 7.058598460518),
    (1.706491764745e-10, 0.3004380506684, 0.0071134546679),
    (1.392952362615e-10, 1.440393973406, 0.7962980379786),
    (1.209868266342e-10, 4.150425791727, 4.69400293411),
    (1.009827202611e-10, 3.290040429843, 3.738761453707),
    (1.047261388602e-10, 4.229590090227, 6.282095334605),
    (1.047006652004e-10, 2.418967680575, 6.284056366286),
    (9.609993143095e-11, 4.627943659201, 6.069776770667),
    (9.590900593873e-11, 1.894393939924, 4.136910472696),
    (9.146249188071e-11, 2.010647519562, 6.496374930224),
    (8.54527448029e-11, 0.05529846956226, 1.194447056968),
    (8.224377881194e-11, 1.254304102174, 1.589072916335),
    (6.18352951041e-11, 3.360862168815, 8.827390247185),
    (6.259255147141e-11, 4.755628243179, 8.429241228195),
    (5.539291694151e-11, 5.371746955142, 4.933208510675),
    (7.328259466314e-11, 0.4927699613906, 4.535059491685),
    (6.01783584356e-11, 0.05776682001734, 12.55903824622),
    (7.079827775243e-11, 4.395059432251, 5.088628793478),
    (5.170358878213e-11, 5.154062619954, 11.76985366291),
    (4.872301838682e-11, 0.6289611648973, 6.04034711426),
    (5.249869411058e-11, 5.617272046949, 3.154687086868),
    (4.716172354411e-11, 3.965901800877, 5.331357529664),
    (4.871214940964e-11, 4.627507050093, 12.56967486051),
    (4.598076850751e-11, 6.023631226459, 6.525804586632),
    (4.562196089485e-11, 4.138562084068, 3.93020969694),
    (4.325493872224e-11, 1.330845906564, 7.632943190217),
    (5.673781176748e-11, 2.558752615657, 5.729506548653),
    (3.961436642503e-11, 2.72807173463, 7.234794171227),
    (5.101868209058e-11, 4.113444965144, 6.836645152238),
    (5.257043167676e-11, 6.19508983059, 8.031092209206),
    (5.076613989393e-11, 2.305124132918, 7.477522907414),
    (3.342169352778e-11, 5.415998155071, 10.97707878456),
    (3.545881983591e-11, 3.727160564574, 4.164311961999),
    (3.364063738599e-11, 0.2901121049204, 11.37170464392),
    (3.357039670776e-11, 1.652229354331, 5.223693906222),
    (4.307412268687e-11, 4.938909587445, 1.592596075957),
    (3.405769115435e-11, 2.408890766511, 3.128388763578),
    (3.00192619848e-11, 4.862239006386, 1.74801635876),
    (2.778264787325e-11, 5.241168661353, 7.342457794669),
    (2.676159480666e-11, 3.423593942199, 2.14616537775),
    (2.954273399939e-11, 1.881721265406, 0.5368044267797),
    (3.309362888795e-11, 1.931525677349, 0.8018209333619),
    (2.810283608438e-11, 2.41465949505, 0.5225775174439),
    (3.378045637764e-11, 4.23801916343, 0.1554202828031),
    (2.55813497984e-11, 1.828225235805, 5.23080736089),
    (2.273755578447e-11, 5.858184283998, 7.084896783808),
    (2.29417603769e-11, 4.514589779057, 17.260154635),
    (2.533506099435e-11, 2.355717851551, 5.216580451554),
    (2.716685375812e-11, 2.2210036251, 8.635942003952),
    (2.419043435198e-11, 5.955704951635, 4.690479774488),
    (2.521232544812e-11, 1.395676848521, 5.481254917084),
    (2.630195021491e-11, 5.727468918743, 0.0262983232899),
    (2.548395840944e-11, 0.00026283518594, 1.349867339771),
];
pub static E1_Y: Terms = &[
    (9.304690546528e-07, 0.0, 0.0),
    (5.150715570663e-07, 4.431807116294, 12.56615170089),
    (1.290825411056e-08, 4.388610039678, 18.84922755134),
    (4.645466665386e-09, 5.827263376034, 6.283075850446),
    (2.079625310718e-09, 0.1621698662282, 6.279552690824),
    (2.078189850907e-09, 3.34471343514, 6.286599010068),
    (6.207190138027e-10, 5.074049319576, 4.705732307012),
    (5.989826532569e-10, 2.23184221662, 6.256777527156),
    (5.961360812618e-10, 1.274975769045, 6.309374173736),
    (4.874165471016e-10, 3.642277426779, 0.775522610072),
    (4.28383403436e-10, 5.148765510106, 1.059381944224),
    (4.652389287529e-10, 4.715794792175, 7.86041939388),
    (3.751707476401e-10, 0.6617207370325, 5.753384878334),
    (3.559998806198e-10, 6.155548875404, 5.884926831456),
    (3.558447558857e-10, 2.898827297664, 6.812766822558),
    (3.211116927106e-10, 3.625813502509, 6.681224869435),
    (2.875609914672e-10, 4.345435813134, 25.13230340178),
    (2.843109704069e-10, 5.862263940038, 6.127655567643),
    (2.744676468427e-10, 3.926419475089, 6.438496133249),
    (2.481285237789e-10, 1.351976572828, 5.486777812467),
    (2.060338481033e-10, 2.147556998591, 7.079373888424),
    (2.015822358331e-10, 4.408358972216, 6.290189305114),
    (2.001195944195e-10, 5.385829822531, 6.275962395778),
    (1.953667642377e-10, 1.30493374612, 5.507553240374),
    (1.839744078713e-10, 6.173567228835, 11.79062909082),
    (1.643334294845e-10, 4.635942997523, 11.50676975667),
    (1.768051018652e-10, 5.086283558874, 0.0071134546679),
    (1.674874205489e-10, 2.243332137241, 7.058598460518),
    (1.421445397609e-10, 6.186899771515, 0.7962980379786),
    (1.255163958267e-10, 5.730238465658, 4.69400293411),
    (1.013945281961e-10, 1.726055228402, 3.738761453707),
    (1.047294335852e-10, 2.658801228129, 6.282095334605),
    (1.047103879392e-10, 0.8481047835035, 6.284056366286),
    (9.530343962826e-11, 3.079267149859, 6.069776770667),
    (9.60463761169e-11, 0.3258679792918, 4.136910472696),
    (9.153518537177e-11, 0.4398599886584, 6.496374930224),
    (8.562458214922e-11, 4.772686794145, 1.194447056968),
    (8.232525360654e-11, 5.966220721679, 1.589072916335),
    (6.150223411438e-11, 1.780985591923, 8.827390247185),
    (6.272087858e-11, 3.184305429012, 8.429241228195),
    (5.54047631104e-11, 3.801260595433, 4.933208510675),
    (7.331901699361e-11, 5.205948591865, 4.535059491685),
    (6.018528702791e-11, 4.770139083623, 12.55903824622),
    (5.150530724804e-11, 3.574796899585, 11.76985366291),
    (6.471933741811e-11, 2.679787266521, 5.088628793478),
    (5.317460644174e-11, 0.9528763345494, 3.154687086868),
    (4.832187748783e-11, 5.329322498232, 6.04034711426),
    (4.71676355511e-11, 2.395235316466, 5.331357529664),
    (4.871509139861e-11, 3.056663648823, 12.56967486051),
    (4.598417696768e-11, 4.452762609019, 6.525804586632),
    (5.674189533175e-11, 0.9879680872193, 5.729506548653),
    (4.073560328195e-11, 5.939127696986, 7.632943190217),
    (5.040994945359e-11, 4.54987582451, 8.031092209206),
    (5.078185134679e-11, 0.7346659893982, 7.477522907414),
    (3.769343537061e-11, 1.071317188367, 7.234794171227),
    (4.980331365299e-11, 2.500345341784, 6.836645152238),
    (3.458236594757e-11, 3.825159450711, 10.97707878456),
    (3.578859493602e-11, 5.299664791549, 4.164311961999),
    (3.370504646419e-11, 5.002316301593, 11.37170464392),
    (3.299873338428e-11, 2.526123275282, 3.93020969694),
    (4.304917318409e-11, 3.368078557132, 1.592596075957),
    (3.402418753455e-11, 0.83854954258, 3.128388763578),
    (2.778460572146e-11, 3.66990520324, 7.342457794669),
    (2.782710128902e-11, 0.269166481217, 1.74801635876),
    (2.711725179646e-11, 4.707487217718, 0.5296909721118),
    (2.98176094634e-11, 0.3190260867816, 0.5368044267797),
    (2.811672977772e-11, 3.196532315372, 7.084896783808),
    (2.863454474467e-11, 0.226324032478, 5.223693906222),
    (3.333464634051e-11, 3.498451685065, 0.8018209333619),
    (3.312991747609e-11, 5.839154477412, 0.1554202828031),
    (2.813255564006e-11, 0.8268044346621, 0.5225775174439),
    (2.665098083966e-11, 3.93402172536, 5.216580451554),
    (2.349795705216e-11, 5.197620913779, 2.14616537775),
    (2.330352293961e-11, 2.984999231807, 17.260154635),
    (2.728001683419e-11, 0.6521679638544, 8.635942003952),
    (2.484061007669e-11, 3.468955561097, 5.23080736089),
    (2.646328768427e-11, 1.013724533516, 0.0262983232899),
    (2.518630264831e-11, 6.108081057122, 5.481254917084),
    (2.421901455384e-11, 1.65109777626, 1.349867339771),
    (6.348533267831e-12, 3.220226560321, 84.33466158131),
];
pub static E1_Z: Terms = &[
    (2.278290449966e-06, 3.413716033863, 6.283075850446),
    (5.42945820983e-08, 0.0, 0.0),
    (1.903240492525e-08, 3.370592358297, 12.56615170089),
    (2.385409276743e-10, 3.327914718416, 18.84922755134),
    (8.676928342573e-11, 1.824006811264, 5.223693906222),
    (7.765442593544e-11, 3.888564279247, 5.507553240374),
    (7.066158332715e-11, 5.194267231944, 2.352866153506),
    (7.092175288657e-11, 2.333246960021, 83.99684731857),
    (5.357582213535e-11, 2.224031176619, 0.5296909721118),
    (3.828035865021e-11, 2.156710933584, 6.279552690824),
    (3.824857220427e-11, 1.529755219915, 6.286599010068),
    (3.286995181628e-11, 4.879512900483, 10.21328554739),
];
pub static E2_X: Terms = &[
    (-4.143818297913e-11, 0.0, 0.0),
    (2.171497694435e-11, 4.398225628264, 12.56615170089),
    (9.845398442516e-12, 0.2079720838384, 6.283075850446),
    (9.256833552682e-13, 4.191264694361, 18.84922755134),
    (1.022049384115e-13, 5.381133195658, 83.99684731857),
];
pub static E2_Y: Terms = &[
    (5.063375872532e-11, 0.0, 0.0),
    (2.17381578598e-11, 2.827805833053, 12.56615170089),
    (1.01023199992e-11, 4.634612377133, 6.283075850446),
    (9.259745317636e-13, 2.620612076189, 18.84922755134),
    (1.022202095812e-13, 3.809562326066, 83.99684731857),
];
pub static E2_Z: Terms = &[
    (9.722666114891e-11, 5.152219582658, 6.283075850446),
    (-3.494819171909e-12, 0.0, 0.0),
    (6.713034376076e-13, 0.6440188750495, 12.56615170089),
];
pub static S0_X: Terms = &[
    (0.00495675753641, 3.741073751789, 0.5296909721118),
    (0.002718490072522, 4.016011511425, 0.2132990797783),
    (0.001546493974344, 2.170528330642, 0.0381329181312),
    (0.0008366855276341, 2.339614075294, 0.0747816656905),
    (0.0002936777942117, 0.0, 0.0),
    (0.0001201317439469, 4.090736353305, 1.059381944224),
    (7.57855088723e-05, 3.24151808814, 0.4265981595566),
    (1.941787367773e-05, 1.01220206433, 0.2061856251104),
    (1.889227765991e-05, 3.89252041644, 0.2204125344462),
    (1.937896968613e-05, 4.797779441161, 0.149563331381),
    (1.434506110873e-05, 3.868960697933, 0.5225775174439),
    (1.40665991158e-05, 0.4759766557397, 0.5368044267797),
    (1.179022300202e-05, 0.7774961520598, 0.0762658362624),
    (8.085864460959e-06, 3.254654471465, 0.0366487475593),
    (7.622752967615e-06, 4.227633103489, 0.0396170887031),
    (6.209171139066e-06, 0.2791828325711, 0.0732974951186),
    (4.36643563397e-06, 4.440454875925, 1.589072916335),
    (3.792124889348e-06, 5.156393842356, 0.0071134546679),
    (3.154548963402e-06, 6.157005730093, 0.4194847048887),
    (3.088359882942e-06, 2.494567553163, 0.6398972393349),
    (2.788440902136e-06, 4.934318747989, 0.1102062672231),
    (3.039928456376e-06, 4.89507770264, 6.283075850446),
    (2.272258457679e-06, 5.278394064764, 0.1030928125552),
    (2.162007057957e-06, 5.802978019099, 0.3163918923335),
    (1.767632855737e-06, 0.03415346595193, 10.21328554739),
    (1.349413459362e-06, 2.001643230755, 0.0014841705719),
    (1.170141900476e-06, 2.42475049162, 0.632783784667),
    (1.05435526682e-06, 3.123311487576, 0.4337116142245),
    (9.80082246161e-07, 3.02625808813, 1.052268489556),
    (1.091203749931e-06, 3.157811670347, 1.162474756779),
    (6.960236715913e-07, 0.8219570542313, 1.066495398892),
    (5.689257296909e-07, 1.323052375236, 0.9491756770005),
    (6.613172135802e-07, 0.2765348881598, 0.8460828644453),
    (6.277702517571e-07, 5.794064466382, 0.1480791608091),
    (6.304884066699e-07, 0.7323555380787, 0.2243449970715),
    (4.897850467382e-07, 3.062464235399, 3.340612434717),
    (3.759148598786e-07, 4.588290469664, 0.0351645769874),
    (3.110520548195e-07, 1.374299536572, 0.0637357483973),
    (3.06470835978e-07, 4.222267485047, 0.0110459172932),
    (2.856347168241e-07, 3.714202944973, 0.1510475019529),
    (2.840945514288e-07, 2.847972875882, 0.041101259275),
    (2.378951599405e-07, 3.762072563388, 0.2275259891141),
    (2.714229481417e-07, 1.036049980031, 0.025350505),
    (2.323551717307e-07, 0.4682388599076, 0.0858275829837),
    (1.881790512219e-07, 4.790565425418, 2.118763888447),
    (2.261353968371e-07, 1.669144912212, 0.0718133245467),
    (2.214546389848e-07, 3.937717281614, 0.0029683411438),
    (2.184915594933e-07, 0.1129169845099, 0.0777500068343),
    (2.000164937936e-07, 4.030009638488, 0.209366617153),
    (1.966105136719e-07, 0.8745955786834, 0.2172315424036),
    (1.904742332624e-07, 5.919743598964, 0.2022531624851),
    (1.657399705031e-07, 2.549141484884, 0.7358765972222),
    (1.574070533987e-07, 5.27753302023, 0.7429900518901),
    (1.832261651039e-07, 3.064688127777, 0.3235053470014),
    (1.733615346569e-07, 3.011432799094, 0.1385174140878),
    (1.549124014496e-07, 4.005569132359, 0.515464062776),
    (1.637044713838e-07, 1.831375966632, 0.8531963191132),
    (1.123420082383e-07, 1.180270407578, 0.1990721704425),
    (1.08375416574e-07, 0.3414101320863, 0.5439178814476),
    (1.156638012655e-07, 0.6130479452594, 0.5257585094865),
    (1.142548785134e-07, 3.724761948846, 0.5336234347371),
    (7.921463895965e-08, 2.435425589361, 1.478866649112),
    (7.428600285231e-08, 3.542144398753, 0.2164800718209),
    (8.323211246747e-08, 3.525058072354, 1.692165728891),
    (7.257595116312e-08, 1.364299431982, 0.2101180877357),
    (7.111185833236e-08, 2.460478875808, 0.4155522422634),
    (6.868090383716e-08, 4.397327670704, 0.117319721891),
    (7.226419974175e-08, 4.042647308905, 1.265567569334),
    (6.955642383177e-08, 2.865047906085, 0.9562891316684),
    (7.492139296331e-08, 5.014278994215, 0.0142269093358),
    (6.598363128857e-08, 2.376730020492, 0.6470106940028),
    (7.381147293385e-08, 3.272990384244, 1.581959461667),
    (6.402909624032e-08, 5.302290955138, 0.0959793578873),
    (6.237454263857e-08, 5.444144425332, 0.0708492030652),
    (5.241198544016e-08, 4.215359579205, 0.5265099800692),
    (5.144463853918e-08, 0.1218916689916, 0.5328719641544),
    (5.868164772299e-08, 2.369402002213, 0.0787141283158),
    (6.233195669151e-08, 1.254922242403, 26.0879031406),
    (6.068463791422e-08, 5.679713760431, 0.1114304132498),
    (4.359361135065e-08, 0.6097219641646, 1.375773836557),
    (4.686510366826e-08, 4.786231041431, 0.1143987543936),
    (3.758977287225e-08, 1.167368068139, 1.596186371003),
    (4.282051974778e-08, 1.519471064319, 0.2770348281756),
    (5.153765386113e-08, 1.860532322984, 0.2228608264996),
    (4.575129387188e-08, 0.7632857887158, 0.1465949902372),
    (3.326844933286e-08, 1.298219485285, 0.05070101),
    (3.748617450984e-08, 1.046510321062, 0.4903339079539),
    (2.816756661499e-08, 3.43452234619, 0.299126662762),
    (3.412750405039e-08, 2.523766270318, 0.3518164938661),
    (2.655796761776e-08, 2.904422260194, 0.6256703299991),
    (2.963597929458e-08, 0.5923900431149, 0.1099462426779),
    (2.539523734781e-08, 4.851947722567, 12.56615170089),
    (2.283087914139e-08, 3.400498595496, 6.681224869435),
    (2.321309799331e-08, 5.789099148673, 0.0336804064155),
    (2.54965764975e-08, 0.03991856479792, 1.169588211447),
    (2.290462303977e-08, 2.788567577052, 1.045155034888),
    (1.945398522914e-08, 3.290896998176, 1.155361302111),
    (1.849171512638e-08, 2.698060129367, 0.0044525117157),
    (1.647199834254e-08, 3.016735644085, 0.4408250688924),
    (1.529530765273e-08, 5.573043116178, 0.0652199189692),
    (1.433199339978e-08, 1.481192356147, 0.9420622223326),
    (1.729134193602e-08, 1.422817538933, 0.2108507877249),
    (1.716463931346e-08, 3.469468901855, 0.2157473718317),
    (1.391206061378e-08, 6.122436220547, 0.4123712502208),
    (1.404746661924e-08, 1.647765641936, 0.0425854298469),
    (1.410452399455e-08, 5.989729161964, 0.2258291676434),
    (1.089828772168e-08, 2.833705509371, 0.4226656969313),
    (1.047374564948e-08, 0.5090690007331, 0.3092784376656),
    (1.358279126532e-08, 5.128990262836, 0.0792341774062),
    (1.020456476148e-08, 0.9632772880808, 0.1456308687557),
    (1.033428735328e-08, 3.223779318418, 1.795258541446),
    (1.41243584154e-08, 2.410271572721, 0.1525316725248),
    (9.722759371574e-09, 2.33353139569, 0.0843434124118),
    (9.657334084704e-09, 6.199270974168, 1.272681024002),
    (1.08364114869e-08, 2.864222292929, 0.0703291539748),
    (1.067318403838e-08, 0.5833458866568, 0.2123349582968),
    (1.062366201976e-08, 4.307753989494, 0.2142632012598),
    (1.236364149266e-08, 2.873917870593, 0.1847279083684),
    (1.092759489593e-08, 2.959887266733, 0.1370332435159),
    (8.912069362899e-09, 5.141213702562, 2.648454860559),
    (9.65646770797e-09, 4.532182462323, 0.4376440768498),
    (8.098386150135e-09, 2.268906338379, 0.2880807454688),
    (7.857714675e-09, 4.055544260745, 0.203737333057),
    (7.288455940646e-09, 5.357901655142, 0.1129145838217),
    (9.450595950552e-09, 4.264926963939, 0.5272426800584),
    (9.381718247537e-09, 0.07489366976576, 0.5321392641652),
    (7.079052646038e-09, 1.923311052874, 0.6288513220417),
    (9.259004415344e-09, 2.970256853438, 0.1606092486742),
    (8.259801499742e-09, 3.327056314697, 0.8389694097774),
    (6.476334355779e-09, 2.954925505727, 2.008557621224),
    (5.984021492007e-09, 0.9138753105829, 20.42657109477),
    (5.989546863181e-09, 3.244464082031, 2.111650433779),
    (6.233108606023e-09, 0.4995232638403, 0.4305306221819),
    (6.877299149965e-09, 2.834987233449, 0.0095617467213),
    (8.31123422719e-09, 2.202951835758, 0.3801276407308),
    (6.599472832414e-09, 4.478581462618, 1.063314406849),
    (6.160491096549e-09, 5.145858696411, 1.368660381889),
    (6.164772043891e-09, 0.3762976697911, 0.423417167514),
    (6.36324868445e-09, 3.162246718685, 0.0125300878651),
    (6.448587520999e-09, 3.442693302119, 0.5287268506303),
    (6.431662283977e-09, 0.8977549136606, 0.5306550935933),
    (6.351223158474e-09, 4.306447410369, 52.1758062812),
    (5.476721393451e-09, 3.888529177855, 2.221856701002),
    (5.341772572619e-09, 2.655560662512, 0.0746675969365),
    (5.337055758302e-09, 5.164990735946, 0.0748957344445),
    (5.373120816787e-09, 6.041214553456, 0.1274714967946),
    (5.392351705426e-09, 0.9177763485932, 1.055449481598),
    (6.688495850205e-09, 3.089608126937, 0.2213766559277),
    (5.072003660362e-09, 4.311316541553, 0.2132517061319),
    (5.070726650455e-09, 0.5790675464444, 0.2133464534247),
    (5.658012950032e-09, 2.703945510675, 0.7287631425543),
    (4.835509924854e-09, 2.975422976065, 0.0716006736479),
    (6.479821978012e-09, 1.324168733114, 0.0220918345864),
    (6.23063649498e-09, 2.860103632836, 0.3306188016693),
    (4.649239516213e-09, 4.832259763403, 0.0779626577331),
    (6.4873257927e-09, 2.726165825042, 0.3884652414254),
    (4.68282368277e-09, 0.6966602455408, 1.073608853559),
    (5.704230804976e-09, 5.669634104606, 0.0873117535556),
    (6.125413585489e-09, 1.513386538915, 0.076051515),
    (6.035825038187e-09, 1.983509168227, 0.9846002785331),
    (4.331123462303e-09, 2.782892992807, 0.4297791515992),
    (4.681107685143e-09, 5.337232886836, 0.2127790306879),
    (4.669105829655e-09, 5.83713379216, 0.2138191288687),
    (5.138823602365e-09, 3.080560200507, 0.0723333736371),
    (4.615856664534e-09, 1.661747897471, 0.8603097737811),
    (4.496916702197e-09, 2.112508027068, 0.073817544209),
    (4.278479042945e-09, 5.716528462627, 0.075745787172),
    (3.840525503932e-09, 0.6424172726492, 0.3407705765729),
    (4.866636509685e-09, 4.919244697715, 0.0772299577439),
    (3.526100639296e-09, 2.550821052734, 0.0622515778254),
    (3.939558488075e-09, 3.93933149171, 0.0526898311041),
    (4.041268772576e-09, 2.275337571218, 0.3503323232942),
    (3.948761842853e-09, 1.99932420079, 0.1451108196653),
    (3.258394550029e-09, 0.91210013782, 0.5296435984654),
    (3.257897048761e-09, 3.428428660869, 0.5297383457582),
    (3.842559031298e-09, 6.132927720035, 0.9098186128426),
    (3.109920095448e-09, 0.7693650193003, 0.0039324626253),
    (3.132237775119e-09, 3.621293854908, 0.234639443782),
    (3.94218942151e-09, 4.841863659733, 0.0031809920426),
    (3.79697228534e-09, 1.814174994268, 0.1862120789403),
    (3.995640233688e-09, 1.386990406091, 0.4549093064213),
    (2.875013727414e-09, 0.9178318587177, 1.905464808669),
    (3.073719932844e-09, 2.688923811835, 0.3628624111593),
    (2.731016580075e-09, 1.188259127584, 0.2131850110243),
    (2.729549896546e-09, 3.702160634273, 0.2134131485323),
    (3.339372892449e-09, 0.7199163960331, 0.2007689919132),
    (2.898833764204e-09, 1.916709364999, 0.5291709230214),
    (2.894536549362e-09, 2.424043195547, 0.5302110212022),
    (3.096872473843e-09, 4.445894977497, 0.2976424921901),
    (2.63567232681e-09, 3.814366984117, 1.48598010378),
    (3.649302697001e-09, 2.924200596084, 0.6044726378023),
    (3.127954585895e-09, 1.842251648327, 0.108462072106),
    (2.616040173947e-09, 4.155841921984, 1.258454114666),
    (2.59739585986e-09, 0.1158045978874, 0.2103781122809),
    (2.59328617221e-09, 4.771850408691, 0.2162200472757),
    (2.481823585747e-09, 0.4608842558889, 1.062562936266),
    (2.742219550725e-09, 1.538781127028, 0.5651155736444),
    (3.19955846961e-09, 0.3226647822878, 0.7036329877322),
    (2.666088542957e-09, 0.1967991731219, 0.1400015846597),
    (2.39706743058e-09, 3.707036669873, 0.2125476091956),
    (2.376570772738e-09, 1.182086628042, 0.214050550361),
    (2.547228007887e-09, 4.906256820629, 0.1534957940063),
    (2.265575594114e-09, 3.414949866857, 0.2235935264888),
    (2.464381430585e-09, 4.599122275378, 0.2091065926078),
    (2.433408527044e-09, 0.2830751145445, 0.2174915669488),
    (2.443605509076e-09, 4.212046432538, 0.1739420156204),
    (2.319779262465e-09, 0.988197840863, 0.0753017147809),
    (2.284622835465e-09, 0.5565347331588, 0.0742616166001),
    (2.467268750783e-09, 0.5655708150766, 0.2526561439362),
    (2.808513492782e-09, 1.418405053408, 0.5636314030725),
    (2.329528932532e-09, 4.069557545675, 1.056200952181),
    (9.698639532817e-10, 1.074134313634, 78.2637094218),
];
pub static S0_Y: Terms = &[
    (0.004955392320126, 2.170467313679, 0.5296909721118),
    (0.002722325167392, 2.444433682196, 0.2132990797783),
    (0.001546579925346, 0.5992779281546, 0.0381329181312),
    (0.0008363140252966, 0.7687356310801, 0.0747816656905),
    (0.0003385792683603, 0.0, 0.0),
    (0.0001201192221613, 2.520035601514, 1.059381944224),
    (7.587125720554e-05, 1.669954006449, 0.4265981595566),
    (1.96415536125e-05, 5.707743963343, 0.2061856251104),
    (1.891900364909e-05, 2.320960679937, 0.2204125344462),
    (1.937373433356e-05, 3.226940689555, 0.149563331381),
    (1.437139941351e-05, 2.301626908096, 0.5225775174439),
    (1.406267683099e-05, 5.188579265542, 0.5368044267797),
    (1.178703080346e-05, 5.489483248476, 0.0762658362624),
    (8.079835186041e-06, 1.683751835264, 0.0366487475593),
    (7.623253594652e-06, 2.656400462961, 0.0396170887031),
    (6.248667483971e-06, 4.992775362055, 0.0732974951186),
    (4.366353695038e-06, 2.869706279678, 1.589072916335),
    (3.829101568895e-06, 3.57213135995, 0.0071134546679),
    (3.175733773908e-06, 4.535372530045, 0.4194847048887),
    (3.092437902159e-06, 0.9230153317909, 0.6398972393349),
    (2.874168812154e-06, 3.363143761101, 0.1102062672231),
    (3.040119321826e-06, 3.324250895675, 6.283075850446),
    (2.699723308006e-06, 0.2917882441928, 0.1030928125552),
    (2.134832683534e-06, 4.220997202487, 0.3163918923335),
    (1.770412139433e-06, 4.747318496462, 10.21328554739),
    (1.377264209373e-06, 0.4305058462401, 0.0014841705719),
    (1.12781453896e-06, 0.853817724074, 0.632783784667),
    (1.05560809013e-06, 1.55180074258, 0.4337116142245),
    (9.80267386142e-07, 1.459646735377, 1.052268489556),
    (1.090329461951e-06, 1.587351228711, 1.162474756779),
    (6.95959002509e-07, 5.534442628766, 1.066495398892),
    (5.664914529542e-07, 6.030673003297, 0.9491756770005),
    (6.607787763599e-07, 4.989507233927, 0.8460828644453),
    (6.269725742838e-07, 4.222951804572, 0.1480791608091),
    (6.301889697863e-07, 5.444316669126, 0.2243449970715),
    (4.891042662861e-07, 1.490552839784, 3.340612434717),
    (3.45708312329e-07, 3.030475486049, 0.0351645769874),
    (3.032559967314e-07, 2.652038793632, 0.0110459172932),
    (2.841133988903e-07, 1.276744786829, 0.041101259275),
    (2.855564444432e-07, 2.143368674733, 0.1510475019529),
    (2.765157135038e-07, 5.444186109077, 0.0637357483973),
    (2.382312465034e-07, 2.190521137593, 0.2275259891141),
    (2.808060365077e-07, 5.735195064841, 0.025350505),
    (2.332175234405e-07, 0.09481985524859, 0.0718133245467),
    (2.322488199659e-07, 5.180499361533, 0.0858275829837),
    (1.881850258423e-07, 3.219788273885, 2.118763888447),
    (2.196111392808e-07, 2.366941159761, 0.0029683411438),
    (2.183810335519e-07, 4.825445110915, 0.0777500068343),
    (2.002733093326e-07, 2.457148995307, 0.209366617153),
    (1.967111767229e-07, 5.586291545459, 0.2172315424036),
    (1.568473250543e-07, 3.70800312332, 0.7429900518901),
    (1.8525283143e-07, 4.31063815156, 0.2022531624851),
    (1.832111226447e-07, 1.494665322656, 0.3235053470014),
    (1.74680550231e-07, 1.451378500784, 0.1385174140878),
    (1.55573096665e-07, 1.068040418198, 0.7358765972222),
    (1.554883462559e-07, 2.442579035461, 0.515464062776),
    (1.638380568746e-07, 0.2597913420625, 0.8531963191132),
    (1.15993859364e-07, 5.83451202128, 0.1990721704425),
    (1.083427965695e-07, 5.05403317795, 0.5439178814476),
    (1.156480369431e-07, 5.325677432457, 0.5257585094865),
    (1.141308860095e-07, 2.153403923857, 0.5336234347371),
    (7.913146470946e-08, 0.8642846847027, 1.478866649112),
    (7.439752463733e-08, 1.970628496213, 0.2164800718209),
    (7.280277104079e-08, 6.073307250609, 0.2101180877357),
    (8.319567719136e-08, 1.954371928334, 1.692165728891),
    (7.13770554929e-08, 0.8904989440909, 0.4155522422634),
    (6.900825396225e-08, 2.825717714977, 0.117319721891),
    (7.245757216635e-08, 2.481677513331, 1.265567569334),
    (6.961165696255e-08, 1.292955312978, 0.9562891316684),
    (7.57180445689e-08, 3.427517575069, 0.0142269093358),
    (6.605425721904e-08, 0.8052192701492, 0.6470106940028),
    (7.375477357248e-08, 1.705076390088, 1.581959461667),
    (7.04166495147e-08, 0.4848356967891, 0.0959793578873),
    (6.322199535763e-08, 3.878069473909, 0.0708492030652),
    (5.244380279191e-08, 2.645560544125, 0.5265099800692),
    (5.143125704988e-08, 4.83448610137, 0.5328719641544),
    (5.871866319373e-08, 0.79814725489, 0.0787141283158),
    (6.300822573871e-08, 5.979398788281, 26.0879031406),
    (6.062154271548e-08, 4.108655402756, 0.1114304132498),
    (4.361912339976e-08, 5.32262431928, 1.375773836557),
    (4.417005920067e-08, 6.240817359284, 0.2770348281756),
    (4.686806749936e-08, 3.214977301156, 0.1143987543936),
    (3.758892132305e-08, 5.879809634765, 1.596186371003),
    (5.151351332319e-08, 0.2893377688007, 0.2228608264996),
    (4.554683578572e-08, 5.475427144122, 0.1465949902372),
    (3.442381385338e-08, 5.99203479664, 0.05070101),
    (2.831093954933e-08, 5.367350273914, 0.3092784376656),
    (3.756267090084e-08, 5.75817128542, 0.4903339079539),
    (2.816374679892e-08, 1.863718700923, 0.299126662762),
    (3.419307025569e-08, 0.952434753413, 0.3518164938661),
    (2.904250494239e-08, 5.304471615602, 0.1099462426779),
    (2.471734511206e-08, 1.29706979353, 0.6256703299991),
    (2.539620831872e-08, 3.281126083375, 12.56615170089),
    (2.281017868007e-08, 1.829122133165, 6.681224869435),
    (2.275319473335e-08, 5.797198160181, 0.0039324626253),
    (2.547755368442e-08, 4.75269770833, 1.169588211447),
    (2.285979669317e-08, 1.223205292886, 1.045155034888),
    (1.913386560994e-08, 1.757532993389, 1.155361302111),
    (1.809020525147e-08, 4.246116108791, 0.0336804064155),
    (1.649213300201e-08, 1.445162890627, 0.4408250688924),
    (1.834972793932e-08, 1.126917567225, 0.0044525117157),
    (1.439550648138e-08, 6.160756834764, 0.9420622223326),
    (1.487645457041e-08, 4.358761931792, 0.4123712502208),
    (1.73172951666e-08, 6.134456753344, 0.2108507877249),
    (1.717747163567e-08, 1.898186084455, 0.2157473718317),
    (1.418190430374e-08, 4.180286741266, 0.0652199189692),
    (1.404844134873e-08, 0.07654053565412, 0.0425854298469),
    (1.409842846538e-08, 4.418612420312, 0.2258291676434),
    (1.090948346291e-08, 1.260615686131, 0.4226656969313),
    (1.357577323612e-08, 3.55824881869, 0.0792341774062),
    (1.01815406196e-08, 5.676087241256, 0.1456308687557),
    (1.412073972109e-08, 0.8394392632422, 0.1525316725248),
    (1.030938326496e-08, 1.653593274064, 1.795258541446),
    (1.180081567104e-08, 1.285802592036, 0.0703291539748),
    (9.70851057565e-09, 0.7631889488106, 0.0843434124118),
    (9.637689663447e-09, 4.630642649176, 1.272681024002),
    (1.068910429389e-08, 5.294934032165, 0.2123349582968),
    (1.063716179336e-08, 2.736266800832, 0.2142632012598),
    (1.234858713814e-08, 1.30289114657, 0.1847279083684),
    (8.912631189738e-09, 3.570415993621, 2.648454860559),
    (1.036378285534e-08, 4.236693440949, 0.1370332435159),
    (9.667798501561e-09, 2.960768892398, 0.4376440768498),
    (8.108314201902e-09, 0.6987781646841, 0.2880807454688),
    (7.648364324628e-09, 2.499017863863, 0.203737333057),
    (7.286136828406e-09, 3.787426951665, 0.1129145838217),
    (9.448237743913e-09, 2.694354332983, 0.5272426800584),
    (9.374276106428e-09, 4.787121277064, 0.5321392641652),
    (7.100226287462e-09, 0.3530238792101, 0.6288513220417),
    (9.253056659571e-09, 1.399478925664, 0.1606092486742),
    (6.636432145504e-09, 3.479575438447, 1.368660381889),
    (6.469975312932e-09, 1.3836699648, 2.008557621224),
    (7.335849729765e-09, 1.243698166898, 0.0095617467213),
    (8.743421205855e-09, 3.776164289301, 0.3801276407308),
    (5.993635744494e-09, 5.627122113596, 20.42657109477),
    (5.981008479693e-09, 1.674336636752, 2.111650433779),
    (6.188535145838e-09, 5.214925208672, 0.4305306221819),
    (6.596074017566e-09, 2.907653268124, 1.063314406849),
    (6.630815126226e-09, 2.127643669658, 0.8389694097774),
    (6.15677283004e-09, 5.082160803295, 0.423417167514),
    (6.446960563014e-09, 1.872100916905, 0.5287268506303),
    (6.429324424668e-09, 5.610276103577, 0.5306550935933),
    (6.302232396465e-09, 1.592152049607, 0.0125300878651),
    (6.399244436159e-09, 2.746214421532, 52.1758062812),
    (5.474965172558e-09, 2.317666374383, 2.221856701002),
    (5.339293190692e-09, 1.084724961156, 0.0746675969365),
    (5.334733683389e-09, 3.594106067745, 0.0748957344445),
    (5.39266578211e-09, 5.630254365606, 1.055449481598),
    (6.682075673789e-09, 1.518480041732, 0.2213766559277),
    (5.07913049596e-09, 2.739765115711, 0.2132517061319),
    (5.077759793261e-09, 5.290711290094, 0.2133464534247),
    (4.83203736831e-09, 1.4044732172, 0.0716006736479),
    (6.463279674802e-09, 6.03838169521, 0.0220918345864),
    (6.24059277156e-09, 1.290170653666, 0.3306188016693),
    (4.672013521493e-09, 3.261895939677, 0.0779626577331),
    (6.500650750348e-09, 1.154522312095, 0.3884652414254),
    (6.344161389053e-09, 6.206111545062, 0.076051515),
    (4.682518370646e-09, 5.409118796685, 1.073608853559),
    (5.329460015591e-09, 1.202985784864, 0.7287631425543),
    (5.701588675898e-09, 4.098715257064, 0.0873117535556),
    (6.030690867211e-09, 0.413203321846, 0.9846002785331),
    (4.336256312655e-09, 1.211415991827, 0.4297791515992),
    (4.688498808975e-09, 3.765479072409, 0.2127790306879),
    (4.675578609335e-09, 4.265540037226, 0.2138191288687),
    (4.225578112158e-09, 5.237566010676, 0.3407705765729),
    (5.139422230028e-09, 1.507173079513, 0.0723333736371),
    (4.619995093571e-09, 0.09023957449848, 0.8603097737811),
    (4.494776255461e-09, 0.5414930552139, 0.073817544209),
    (4.274026276788e-09, 4.145735303659, 0.075745787172),
    (5.018141789353e-09, 3.344408829055, 0.0031809920426),
    (4.866163952181e-09, 3.348534657607, 0.0772299577439),
    (4.111986020501e-09, 0.419882359722, 0.1451108196653),
    (3.35614278495e-09, 5.60914474718, 0.1274714967946),
    (4.070575554551e-09, 0.7028411059224, 0.3503323232942),
    (3.257451857278e-09, 5.624697983086, 0.5296435984654),
    (3.256973703026e-09, 1.857842076707, 0.5297383457582),
    (3.83077150864e-09, 4.562887279931, 0.9098186128426),
    (3.725024005962e-09, 0.2358058692652, 0.108462072106),
    (3.136763921756e-09, 2.049731526845, 0.234639443782),
    (3.795147256194e-09, 0.2432356296933, 0.1862120789403),
    (2.877342229911e-09, 5.631101279387, 1.905464808669),
    (3.076931798805e-09, 1.117615737392, 0.3628624111593),
    (2.734765945273e-09, 5.899826516955, 0.2131850110243),
    (2.733405296885e-09, 2.13056296407, 0.2134131485323),
    (2.89855235341e-09, 0.3462387048225, 0.5291709230214),
    (2.893736103681e-09, 0.8534352781543, 0.5302110212022),
    (3.095717734137e-09, 2.875061429041, 0.2976424921901),
    (2.636190425832e-09, 2.242512846659, 1.48598010378),
    (3.645512095537e-09, 1.354016903958, 0.6044726378023),
    (2.808173547723e-09, 0.06705114365631, 0.0622515778254),
    (2.625012866888e-09, 4.775705748482, 0.0526898311041),
    (2.572233995651e-09, 2.638924216139, 1.258454114666),
    (2.604238824792e-09, 4.826358927373, 0.2103781122809),
    (2.596886385239e-09, 3.200388483118, 0.2162200472757),
    (3.228057304264e-09, 5.384848409563, 0.2007689919132),
    (2.481601798252e-09, 5.173373487744, 1.062562936266),
    (2.745977498864e-09, 6.250966149853, 0.5651155736444),
    (2.669878833811e-09, 4.906001352499, 0.1400015846597),
    (3.203986611711e-09, 5.034333010005, 0.7036329877322),
    (3.354961227212e-09, 6.108262423137, 0.4549093064213),
    (2.400407324558e-09, 2.135399294955, 0.2125476091956),
    (2.379905859802e-09, 5.893721933961, 0.214050550361),
    (2.550844302187e-09, 3.331940762063, 0.1534957940063),
    (2.268824211001e-09, 1.843418461035, 0.2235935264888),
    (2.464700891204e-09, 3.02954854723, 0.2091065926078),
    (2.436814726024e-09, 4.994717970364, 0.2174915669488),
    (2.443623894745e-09, 2.645102591375, 0.1739420156204),
    (2.318701783838e-09, 5.700547397897, 0.0753017147809),
    (2.284448700256e-09, 5.268898905872, 0.0742616166001),
    (2.46884812351e-09, 5.276280575078, 0.2526561439362),
    (2.814052350303e-09, 6.130168623475, 0.5636314030725),
    (2.24366275522e-09, 0.6631692457995, 0.0888659032194),
    (2.330795855941e-09, 2.499435487702, 1.056200952181),
    (9.757679038404e-10, 5.796846023126, 78.2637094218),
];
pub static S0_Z: Terms = &[
    (0.0001181255122986, 0.4607918989164, 0.2132990797783),
    (0.0001127777651095, 0.4169146331296, 0.5296909721118),
    (4.777754401806e-05, 4.58265700713, 0.0381329181312),
    (1.129354285772e-05, 5.75873514248, 0.0747816656905),
    (-1.149543637123e-05, 0.0, 0.0),
    (3.298730512306e-06, 5.978801994625, 0.4265981595566),
    (2.733376706079e-06, 0.766541369104, 1.059381944224),
    (9.42638965727e-07, 3.710201265838, 0.2061856251104),
    (8.187517749552e-07, 0.3390675605802, 0.2204125344462),
    (4.080447871819e-07, 0.4552296640088, 0.5225775174439),
    (3.169973017028e-07, 3.445455899321, 0.5368044267797),
    (2.438098615549e-07, 5.664675150648, 0.0366487475593),
    (2.601897517235e-07, 1.931894095697, 0.149563331381),
    (2.314558080079e-07, 0.3666319115574, 0.0396170887031),
    (1.962549548002e-07, 3.16741169902, 0.0762658362624),
    (2.180518287925e-07, 1.54442074658, 0.0071134546679),
    (1.451382442868e-07, 1.58375674007, 0.1102062672231),
    (1.358439007389e-07, 5.23994175828, 0.6398972393349),
    (1.050585898028e-07, 2.266958352859, 0.3163918923335),
    (1.050029870186e-07, 2.711495250354, 0.4194847048887),
    (9.9349206798e-08, 1.116208151396, 1.589072916335),
    (1.04839533156e-07, 3.408619600206, 10.21328554739),
    (8.370147196668e-08, 3.810459401087, 0.025350505),
    (7.989856510998e-08, 3.769910473647, 0.0732974951186),
    (5.441221655233e-08, 2.416994903374, 0.1030928125552),
    (4.610812906784e-08, 5.858503336994, 0.4337116142245),
    (3.923022803444e-08, 0.3354170010125, 0.0014841705719),
    (2.610725582128e-08, 5.410600646324, 0.632783784667),
    (2.455279767721e-08, 6.120216681403, 1.162474756779),
    (2.375530706525e-08, 6.055443426143, 1.052268489556),
    (1.782967577553e-08, 3.146108708004, 0.8460828644453),
    (1.581687095238e-08, 0.6255496089819, 3.340612434717),
    (1.594657672461e-08, 3.782604300261, 1.066495398892),
    (1.56344861504e-08, 1.997775733196, 0.2022531624851),
    (1.463624258525e-08, 0.1736316792088, 0.0351645769874),
    (1.331585056673e-08, 4.331941830747, 0.9491756770005),
    (1.130634557637e-08, 6.152017751825, 0.0029683411438),
    (1.028949607145e-08, 0.2101792614637, 0.2275259891141),
    (1.024074971618e-08, 4.071833211074, 0.05070101),
    (8.826956060303e-09, 0.4861633688145, 0.209366617153),
    (8.572230171541e-09, 5.268190724302, 0.041101259275),
    (7.649332643544e-09, 5.134543417106, 26.0879031406),
    (8.581673291033e-09, 2.920218146681, 0.1480791608091),
    (8.430589300938e-09, 3.604576619108, 0.2172315424036),
    (7.776165501012e-09, 3.772942249792, 0.0637357483973),
    (8.311070234408e-09, 6.200412329888, 0.3235053470014),
    (6.927365212582e-09, 4.543353113437, 0.8531963191132),
    (6.791574208598e-09, 2.882188406238, 0.0718133245467),
    (5.593100811839e-09, 1.77664689278, 0.7429900518901),
    (4.553381853021e-09, 3.94961761124, 0.0777500068343),
    (5.758000450068e-09, 3.859251775075, 0.1990721704425),
    (4.281283457133e-09, 1.466294631206, 2.118763888447),
    (4.206935661097e-09, 5.421776011706, 0.0110459172932),
    (4.213751641837e-09, 3.412048993322, 0.2243449970715),
    (5.310506239878e-09, 0.5421641370995, 0.515464062776),
    (3.82745034132e-09, 0.8887314524995, 0.1510475019529),
    (4.292435241187e-09, 1.405043757194, 0.0142269093358),
    (3.189780702289e-09, 1.060049293445, 0.117319721891),
    (3.226611928069e-09, 6.270858897442, 0.2164800718209),
    (2.89389760883e-09, 5.117563223301, 0.6470106940028),
    (3.239852024578e-09, 4.079092237983, 0.2101180877357),
    (2.9568922222e-09, 1.594917021704, 0.3092784376656),
    (2.980177912437e-09, 5.258787667564, 0.4155522422634),
    (3.163725690776e-09, 3.854589225479, 0.0858275829837),
    (2.662262399118e-09, 3.561326430187, 0.5257585094865),
    (2.766689135729e-09, 0.318073208683, 0.1385174140878),
    (2.411600278464e-09, 3.324798335058, 0.5439178814476),
    (2.483527695131e-09, 0.4169069291947, 0.5336234347371),
    (7.78877727659e-10, 1.900569908215, 52.1758062812),
];
pub static S1_X: Terms = &[
    (-1.29631036152e-08, 0.0, 0.0),
    (8.975769009438e-09, 1.12889160925, 0.4265981595566),
    (7.771113441307e-09, 2.706039877077, 0.2061856251104),
    (7.538303866642e-09, 2.191281289498, 0.2204125344462),
    (6.061384579336e-09, 3.248167319958, 1.059381944224),
    (5.726994235594e-09, 5.56998139861, 0.5225775174439),
    (5.616492836424e-09, 5.057386614909, 0.5368044267797),
    (1.010881584769e-09, 3.473577116095, 0.0071134546679),
    (7.259606157626e-10, 0.3651858593665, 0.6398972393349),
    (8.755095026935e-10, 1.662835408338, 0.4194847048887),
    (5.370491182812e-10, 1.327673878077, 0.4337116142245),
    (5.743773887665e-10, 4.250200846687, 0.2132990797783),
    (4.4081031403e-10, 3.598752574277, 1.589072916335),
    (3.101892374445e-10, 4.887822983319, 1.052268489556),
    (3.209453713578e-10, 0.9702272295114, 0.5296909721118),
    (3.017228286064e-10, 5.484462275949, 1.066495398892),
    (3.200700038601e-10, 2.846613338643, 0.149563331381),
    (2.137637279911e-10, 0.5692163292729, 0.3163918923335),
    (1.899686386727e-10, 2.061077157189, 0.2275259891141),
    (1.401994545308e-10, 4.177771136967, 0.1102062672231),
    (1.578057810499e-10, 5.782460597335, 0.0762658362624),
    (1.237713253351e-10, 5.705900866881, 0.515464062776),
    (1.313076837395e-10, 5.163438179576, 0.0366487475593),
    (1.18496330486e-10, 3.054804427242, 0.632783784667),
    (1.238130878565e-10, 2.317292575962, 0.0396170887031),
    (1.015959527736e-10, 2.194643645526, 0.0732974951186),
    (9.017954423714e-11, 2.868603545435, 0.1990721704425),
    (8.668024955603e-11, 4.923849675082, 0.5439178814476),
    (7.756083930103e-11, 3.0143341352, 0.9491756770005),
    (7.536503401741e-11, 2.704886279769, 0.1030928125552),
    (5.483308679332e-11, 6.010983673799, 0.8531963191132),
    (5.184339620428e-11, 1.952704573291, 0.209366617153),
    (5.10865871203e-11, 2.958575786649, 0.2172315424036),
    (5.01942452465e-11, 1.736317621318, 0.2164800718209),
    (4.909312625978e-11, 3.167216416257, 0.2101180877357),
    (4.456638901107e-11, 0.7697579923471, 0.3235053470014),
    (4.227030350925e-11, 3.490910137928, 0.0637357483973),
    (4.095456040093e-11, 0.5178888984491, 0.6470106940028),
    (4.990537041422e-11, 3.323887668974, 0.0142269093358),
    (4.321170010845e-11, 4.288484987118, 0.7358765972222),
    (3.544072091802e-11, 6.021051579251, 0.5265099800692),
    (3.480198638687e-11, 4.600027054714, 0.5328719641544),
    (3.440287244435e-11, 4.349525970742, 0.0858275829837),
    (3.330628322713e-11, 2.347391505082, 0.0110459172932),
    (2.973060707184e-11, 4.7894092864, 0.5257585094865),
    (2.932606766089e-11, 5.831693799927, 0.5336234347371),
    (2.876972310953e-11, 2.692638514771, 0.117319721891),
    (2.827488278556e-11, 2.05605248796, 0.2022531624851),
    (2.515028239756e-11, 0.7411863262449, 0.0959793578873),
    (2.853033744415e-11, 3.948481024894, 2.118763888447),
];
pub static S1_Y: Terms = &[
    (8.989047573576e-09, 5.840593672122, 0.4265981595566),
    (7.815938401048e-09, 1.129664707133, 0.2061856251104),
    (7.55092671328e-09, 0.6196589104845, 0.2204125344462),
    (6.056556925895e-09, 1.677494667846, 1.059381944224),
    (5.734142698204e-09, 4.000920852962, 0.5225775174439),
    (5.614341822459e-09, 3.486722577328, 0.5368044267797),
    (1.028678147656e-09, 1.877141024787, 0.0071134546679),
    (7.270792075266e-10, 5.077167301739, 0.6398972393349),
    (8.73414172604e-10, 0.09069550282609, 0.4194847048887),
    (5.377371402113e-10, 6.039381844671, 0.4337116142245),
    (4.729719431571e-10, 2.15308631176, 0.2132990797783),
    (4.458052820973e-10, 5.059830025565, 0.5296909721118),
    (4.406855467908e-10, 2.02797169263, 1.589072916335),
    (3.101659310977e-10, 3.31767798186, 1.052268489556),
    (3.016749232545e-10, 3.913703482532, 1.066495398892),
    (3.198541352656e-10, 1.275513098525, 0.149563331381),
    (2.142065389871e-10, 5.301351614597, 0.3163918923335),
    (1.902615247592e-10, 0.4894943352736, 0.2275259891141),
    (1.613410990871e-10, 2.449891130437, 0.1102062672231),
    (1.576992165097e-10, 4.211421447633, 0.0762658362624),
    (1.241637259894e-10, 4.140803368133, 0.515464062776),
    (1.313974830355e-10, 3.591920305503, 0.0366487475593),
    (1.181697118258e-10, 1.506314382788, 0.632783784667),
    (1.238239742779e-10, 0.7461405378404, 0.0396170887031),
    (1.010107068241e-10, 0.6271010795475, 0.0732974951186),
    (9.226316616509e-11, 1.259158839583, 0.1990721704425),
    (8.664946419555e-11, 3.353244696934, 0.5439178814476),
    (7.757230468978e-11, 1.447677295196, 0.9491756770005),
    (7.693168628139e-11, 1.120509896721, 0.1030928125552),
    (5.487897454612e-11, 4.439380426795, 0.8531963191132),
    (5.196118677218e-11, 0.3788856619137, 0.209366617153),
    (5.110853339935e-11, 1.386879372016, 0.2172315424036),
    (5.027804534813e-11, 0.1647881805466, 0.2164800718209),
    (4.922485922674e-11, 1.594315079862, 0.2101180877357),
    (6.1555995244e-11, 0.0, 0.0),
    (4.447147832161e-11, 5.480720918976, 0.3235053470014),
    (4.144691276422e-11, 1.93137103366, 0.0637357483973),
    (4.099950625452e-11, 5.229611294335, 0.6470106940028),
    (5.060541682953e-11, 1.731112486298, 0.0142269093358),
    (4.2936159463e-11, 2.714571038925, 0.7358765972222),
    (3.545659845763e-11, 4.451041444634, 0.5265099800692),
    (3.479112041196e-11, 3.029385448081, 0.5328719641544),
    (3.43851649357e-11, 2.778507143731, 0.0858275829837),
    (3.297341285033e-11, 0.7898709807584, 0.0110459172932),
    (2.972585818015e-11, 3.218785316973, 0.5257585094865),
    (2.931707295017e-11, 4.260731012098, 0.5336234347371),
    (2.897198149403e-11, 1.120753978101, 0.117319721891),
    (2.832293240878e-11, 0.4597682717827, 0.2022531624851),
    (2.864348326612e-11, 2.169939928448, 0.0959793578873),
    (2.852714675471e-11, 2.377659870578, 2.118763888447),
];
pub static S1_Z: Terms = &[
    (5.444220475678e-09, 1.80382550931, 0.2132990797783),
    (3.883412695596e-09, 4.668616389392, 0.5296909721118),
    (1.334341434551e-09, 0.0, 0.0),
    (3.730001266883e-10, 5.401405918943, 0.2061856251104),
    (2.894929197956e-10, 4.932415609852, 0.2204125344462),
    (2.857950357701e-10, 3.154625362131, 0.0747816656905),
    (2.499226432292e-10, 3.657486128988, 0.4265981595566),
    (1.937705443593e-10, 5.740434679002, 1.059381944224),
    (1.37489439632e-10, 1.712857366891, 0.5368044267797),
    (1.217248678408e-10, 2.312090870932, 0.5225775174439),
    (7.96105274087e-11, 5.283368554163, 0.0381329181312),
    (4.979225949689e-11, 4.29829047186, 0.4194847048887),
    (4.388552286597e-11, 6.145515047406, 0.0071134546679),
    (2.58683521256e-11, 3.019448001809, 0.6398972393349),
];
pub static S2_X: Terms = &[
    (1.603551636587e-12, 4.404109410481, 0.2061856251104),
    (1.556935889384e-12, 0.4818040873603, 0.2204125344462),
    (1.182594414915e-12, 0.9935762734472, 0.5225775174439),
    (1.15879458318e-12, 3.35318096645, 0.5368044267797),
    (9.597358943932e-13, 5.567045358298, 0.2132990797783),
    (6.511516579605e-13, 5.630872420788, 0.4265981595566),
    (7.419792747688e-13, 2.156188581957, 0.5296909721118),
    (3.951972655848e-13, 1.981022541805, 1.059381944224),
    (4.478223877045e-13, 0.0, 0.0),
];
pub static S2_Y: Terms = &[
    (1.609114495091e-12, 2.831096993481, 0.2061856251104),
    (1.560330784946e-12, 5.193058213906, 0.2204125344462),
    (1.183535479202e-12, 5.70700344389, 0.5225775174439),
    (1.158183066182e-12, 1.782400404928, 0.5368044267797),
    (1.032868027407e-12, 4.036925452011, 0.2132990797783),
    (6.540142847741e-13, 4.058241056717, 0.4265981595566),
    (7.305236491596e-13, 0.6175401942957, 0.5296909721118),
    (-5.580725052968e-13, 0.0, 0.0),
    (3.946122651015e-13, 0.4108265279171, 1.059381944224),
];
pub static S2_Z: Terms = &[
    (3.749920358054e-13, 3.230285558668, 0.2132990797783),
    (2.735037220939e-13, 6.154322683046, 0.5296909721118),
];
