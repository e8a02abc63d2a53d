/// The published table of the ce noise curve: rows of (frequency * 10^20, amplitude density * 10^44),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 2
  pure val ASD = true
  pure val ROWS = 3000
  pure val CHUNKS: List[int] = [
    2254613300000000000000000000000578084080000000000000000000002310558800000000000000000000000576754080000000000000000000002367994200000000000000000000000575427140000000000000000000002426962000000000000000000000000574103260000000000000000000002487505700000000000000000000000572782420000000000000000000002549670500000000000000000000000571464610000000000000000000002613502900000000000000000000000570149850000000000000000000002679050900000000000000000000000568838100000000000000000000002746363800000000000000000000000567529370000000000000000000002815492800000000000000000000000566223660000000000000000000002886490500000000000000000000000564920940000000000000000000002959411400000000000000000000000563621230000000000000000000003034311400000000000000000000000562324510000000000000000000003111248600000000000000000000000561030760000000000000000000003190282800000000000000000000000559740000000000000000000000003271475600000000000000000000000558452200000000000000000000003354890900000000000000000000000557167370000000000000000000003440594600000000000000000000000555885500000000000000000000003528654600000000000000000000000554606570000000000000000000003619141300000000000000000000000553330580000000000000000000003712127300000000000000000000000552057540000000000000000000003807687600000000000000000000000550787420000000000000000000003905899700000000000000000000000549520220000000000000000000004006843900000000000000000000000548255940000000000000000000004110603100000000000000000000000546994560000000000000000000004217262900000000000000000000000545736090000000000000000000004326912000000000000000000000000544480510000000000000000000004439642000000000000000000000000543227830000000000000000000004555547800000000000000000000000541978020000000000000000000004674727600000000000000000000000540731090000000000000000000004797282700000000000000000000000539487030000000000000000000004923318400000000000000000000000538245830000000000000000000005052943400000000000000000000000537007490000000000000000000005186270300000000000000000000000535771990000000000000000000005323415800000000000000000000000534539340000000000000000000005464500600000000000000000000000533309530000000000000000000005609650000000000000000000000000532082540000000000000000000005758993500000000000000000000000530858380000000000000000000005912665500000000000000000000000529637030000000000000000000006070805400000000000000000000000528418490000000000000000000006233557400000000000000000000000527202760000000000000000000006401071300000000000000000000000525989820000000000000000000006573502300000000000000000000000524779680000000000000000000006751011600000000000000000000000523572310000000000000000000006933766300000000000000000000000522367730000000000000000000007121939800000000000000000000000521165920000000000000000000007315712200000000000000000000000519966870000000000000000000007515270300000000000000000000000518770580000000000000000000007720808500000000000000000000000517577040000000000000000000007932528300000000000000000000000516386250000000000000000000008150639300000000000000000000000515198200000000000000000000008375359200000000000000000000000514012880000000000000000000008606914400000000000000000000000512830290000000000000000000008845540400000000000000000000000511650420000000000000000000009091481900000000000000000000000510473270000000000000000000009344993600000000000000000000000509298820000000000000000000009606340600000000000000000000000508127080000000000000000000009875798800000000000000000000000506958030000000000000000000010153656000000000000000000000000505791670000000000000000000010440210000000000000000000000000504627990000000000000000000010735774000000000000000000000000503466990000000000000000000011040671000000000000000000000000502308670000000000000000000011355242000000000000000000000000501153000000000000000000000011679839000000000000000000000000500000000000000000000,
    518036580000000000000000000000669903660000000000000000000000529087770000000000000000000000668362410000000000000000000000540418140000000000000000000000666824710000000000000000000000552034710000000000000000000000665290550000000000000000000000563944640000000000000000000000663759910000000000000000000000576155310000000000000000000000662232800000000000000000000000588674300000000000000000000000660709200000000000000000000000601509360000000000000000000000659189100000000000000000000000614668480000000000000000000000657672500000000000000000000000628159850000000000000000000000656159390000000000000000000000641991870000000000000000000000654649770000000000000000000000656173180000000000000000000000653143610000000000000000000000670712650000000000000000000000651640920000000000000000000000685619370000000000000000000000650141690000000000000000000000700902710000000000000000000000648645910000000000000000000000716572260000000000000000000000647153570000000000000000000000732637900000000000000000000000645664660000000000000000000000749109760000000000000000000000644179180000000000000000000000765998240000000000000000000000642697110000000000000000000000783314050000000000000000000000641218460000000000000000000000801068180000000000000000000000639743210000000000000000000000819271910000000000000000000000638271350000000000000000000000837936840000000000000000000000636802880000000000000000000000857074910000000000000000000000635337780000000000000000000000876698360000000000000000000000633876060000000000000000000000896819790000000000000000000000632417700000000000000000000000917452130000000000000000000000630962690000000000000000000000938608700000000000000000000000629511040000000000000000000000960303160000000000000000000000628062720000000000000000000000982549570000000000000000000000626617730000000000000000000001005362400000000000000000000000625176070000000000000000000001028756500000000000000000000000623737730000000000000000000001052747100000000000000000000000622302690000000000000000000001077350000000000000000000000000620870960000000000000000000001102581300000000000000000000000619442520000000000000000000001128457600000000000000000000000618017370000000000000000000001154996000000000000000000000000616595500000000000000000000001182214100000000000000000000000615176890000000000000000000001210129900000000000000000000000613761550000000000000000000001238762100000000000000000000000612349470000000000000000000001268129800000000000000000000000610940640000000000000000000001298252600000000000000000000000609535050000000000000000000001329150900000000000000000000000608132690000000000000000000001360845400000000000000000000000606733550000000000000000000001393357600000000000000000000000605337640000000000000000000001426709500000000000000000000000603944940000000000000000000001460924000000000000000000000000602555440000000000000000000001496024200000000000000000000000601169140000000000000000000001532034400000000000000000000000599786030000000000000000000001568979200000000000000000000000598406100000000000000000000001606884200000000000000000000000597029350000000000000000000001645775600000000000000000000000595655760000000000000000000001685680500000000000000000000000594285330000000000000000000001726626700000000000000000000000592918060000000000000000000001768642900000000000000000000000591553930000000000000000000001811758600000000000000000000000590192940000000000000000000001856004200000000000000000000000588835080000000000000000000001901411000000000000000000000000587480350000000000000000000001948011400000000000000000000000586128730000000000000000000001995838600000000000000000000000584780230000000000000000000002044926900000000000000000000000583434820000000000000000000002095311500000000000000000000000582092510000000000000000000002147028900000000000000000000000580753290000000000000000000002200116600000000000000000000000579417150000000000000,
    171219800000000000000000000000776307340000000000000000000000173406940000000000000000000000774521290000000000000000000000175649550000000000000000000000772739340000000000000000000000177949180000000000000000000000770961500000000000000000000000180307430000000000000000000000769187750000000000000000000000182725910000000000000000000000767418080000000000000000000000185206310000000000000000000000765652480000000000000000000000187750310000000000000000000000763890940000000000000000000000190359650000000000000000000000762133450000000000000000000000193036130000000000000000000000760380010000000000000000000000195781550000000000000000000000758630600000000000000000000000198597780000000000000000000000756885220000000000000000000000201486720000000000000000000000755143850000000000000000000000204450310000000000000000000000753406490000000000000000000000207490550000000000000000000000751673130000000000000000000000210609470000000000000000000000749943750000000000000000000000213809140000000000000000000000748218350000000000000000000000217091680000000000000000000000746496930000000000000000000000220459280000000000000000000000744779460000000000000000000000223914150000000000000000000000743065940000000000000000000000227458560000000000000000000000741356370000000000000000000000231094830000000000000000000000739650730000000000000000000000234825330000000000000000000000737949010000000000000000000000238652500000000000000000000000736251210000000000000000000000242578800000000000000000000000734557320000000000000000000000246606780000000000000000000000732867320000000000000000000000250739030000000000000000000000731181210000000000000000000000254978210000000000000000000000729498980000000000000000000000259327020000000000000000000000727820620000000000000000000000263788250000000000000000000000726146120000000000000000000000268364730000000000000000000000724475480000000000000000000000273059360000000000000000000000722808670000000000000000000000277875120000000000000000000000721145710000000000000000000000282815040000000000000000000000719486560000000000000000000000287882240000000000000000000000717831240000000000000000000000293079910000000000000000000000716179720000000000000000000000298411280000000000000000000000714532010000000000000000000000303879720000000000000000000000712888080000000000000000000000309488610000000000000000000000711247940000000000000000000000315241470000000000000000000000709611570000000000000000000000321141860000000000000000000000707978970000000000000000000000327193460000000000000000000000706350120000000000000000000000333400010000000000000000000000704725020000000000000000000000339765350000000000000000000000703103650000000000000000000000346293420000000000000000000000701486020000000000000000000000352988250000000000000000000000699872110000000000000000000000359853960000000000000000000000698261910000000000000000000000366894800000000000000000000000696655420000000000000000000000374115090000000000000000000000695052620000000000000000000000381519270000000000000000000000693453510000000000000000000000389111910000000000000000000000691858080000000000000000000000396897650000000000000000000000690266320000000000000000000000404881300000000000000000000000688678230000000000000000000000413067740000000000000000000000687093780000000000000000000000421462010000000000000000000000685512990000000000000000000000430069250000000000000000000000683935820000000000000000000000438894760000000000000000000000682362290000000000000000000000447943940000000000000000000000680792380000000000000000000000457222370000000000000000000000679226080000000000000000000000466735730000000000000000000000677663380000000000000000000000476489870000000000000000000000676104280000000000000000000000486490790000000000000000000000674548770000000000000000000000496744650000000000000000000000672996830000000000000000000000507257750000000000000000000000671448460000000000000,
    97296258000000000000000000000899611570000000000000000000000097930251000000000000000000000897541830000000000000000000000098571630000000000000000000000895476860000000000000000000000099220643000000000000000000000893416630000000000000000000000099877551000000000000000000000891361140000000000000000000000100542620000000000000000000000889310390000000000000000000000101216140000000000000000000000887264350000000000000000000000101898380000000000000000000000885223020000000000000000000000102589650000000000000000000000883186380000000000000000000000103290250000000000000000000000881154440000000000000000000000104000510000000000000000000000879127160000000000000000000000104720760000000000000000000000877104550000000000000000000000105451320000000000000000000000875086600000000000000000000000106192560000000000000000000000873073280000000000000000000000106944840000000000000000000000871064600000000000000000000000107708530000000000000000000000869060540000000000000000000000108484020000000000000000000000867061090000000000000000000000109271720000000000000000000000865066240000000000000000000000110072020000000000000000000000863075980000000000000000000000110885370000000000000000000000861090300000000000000000000000111712200000000000000000000000859109190000000000000000000000112552960000000000000000000000857132630000000000000000000000113408130000000000000000000000855160630000000000000000000000114278180000000000000000000000853193160000000000000000000000115163620000000000000000000000851230210000000000000000000000116064950000000000000000000000849271790000000000000000000000116982720000000000000000000000847317860000000000000000000000117917450000000000000000000000845368440000000000000000000000118869730000000000000000000000843423500000000000000000000000119840120000000000000000000000841483030000000000000000000000120829230000000000000000000000839547030000000000000000000000121837660000000000000000000000837615480000000000000000000000122866060000000000000000000000835688380000000000000000000000123915070000000000000000000000833765710000000000000000000000124985360000000000000000000000831847460000000000000000000000126077630000000000000000000000829933630000000000000000000000127192590000000000000000000000828024200000000000000000000000128330960000000000000000000000826119160000000000000000000000129493490000000000000000000000824218510000000000000000000000130680970000000000000000000000822322230000000000000000000000131894180000000000000000000000820430310000000000000000000000133133950000000000000000000000818542740000000000000000000000134401100000000000000000000000816659520000000000000000000000135696500000000000000000000000814780630000000000000000000000137021040000000000000000000000812906060000000000000000000000138375620000000000000000000000811035810000000000000000000000139761180000000000000000000000809169850000000000000000000000141178680000000000000000000000807308190000000000000000000000142629100000000000000000000000805450820000000000000000000000144113440000000000000000000000803597720000000000000000000000145632750000000000000000000000801748880000000000000000000000147188080000000000000000000000799904290000000000000000000000148780520000000000000000000000798063950000000000000000000000150411190000000000000000000000796227840000000000000000000000152081230000000000000000000000794395960000000000000000000000153791820000000000000000000000792568290000000000000000000000155544150000000000000000000000790744830000000000000000000000157339460000000000000000000000788925560000000000000000000000159179010000000000000000000000787110480000000000000000000000161064090000000000000000000000785299570000000000000000000000162996020000000000000000000000783492830000000000000000000000164976150000000000000000000000781690250000000000000000000000167005870000000000000000000000779891810000000000000000000000169086600000000000000000000000778097510000000000000,
    65410058000000000000000000001042500700000000000000000000000065826431000000000000000000001040102300000000000000000000000066244847000000000000000000001037709300000000000000000000000066665302000000000000000000001035321800000000000000000000000067087796000000000000000000001032939900000000000000000000000067512328000000000000000000001030563400000000000000000000000067938901000000000000000000001028192400000000000000000000000068367517000000000000000000001025826800000000000000000000000068798181000000000000000000001023466700000000000000000000000069230899000000000000000000001021112000000000000000000000000069665678000000000000000000001018762700000000000000000000000070102529000000000000000000001016418800000000000000000000000070541462000000000000000000001014080400000000000000000000000070982490000000000000000000001011747300000000000000000000000071425628000000000000000000001009419500000000000000000000000071870895000000000000000000001007097200000000000000000000000072318308000000000000000000001004780100000000000000000000000072767889000000000000000000001002468400000000000000000000000073219662000000000000000000001000162000000000000000000000000073673635000000000000000000000997860970000000000000000000000074129813000000000000000000000995565190000000000000000000000074588221000000000000000000000993274690000000000000000000000075048889000000000000000000000990989460000000000000000000000075511849000000000000000000000988709490000000000000000000000075977133000000000000000000000986434770000000000000000000000076444780000000000000000000000984165270000000000000000000000076914828000000000000000000000981901000000000000000000000000077387319000000000000000000000979641940000000000000000000000077862298000000000000000000000977388080000000000000000000000078339813000000000000000000000975139400000000000000000000000078819915000000000000000000000972895890000000000000000000000079302658000000000000000000000970657550000000000000000000000079788099000000000000000000000968424350000000000000000000000080276297000000000000000000000966196300000000000000000000000080767318000000000000000000000963973370000000000000000000000081261229000000000000000000000961755550000000000000000000000081758099000000000000000000000959542840000000000000000000000082258004000000000000000000000957335220000000000000000000000082761022000000000000000000000955132670000000000000000000000083267236000000000000000000000952935200000000000000000000000083776731000000000000000000000950742780000000000000000000000084289598000000000000000000000948555400000000000000000000000084805931000000000000000000000946373060000000000000000000000085325830000000000000000000000944195740000000000000000000000085849398000000000000000000000942023420000000000000000000000086376743000000000000000000000939856110000000000000000000000086907977000000000000000000000937693780000000000000000000000087443219000000000000000000000935536420000000000000000000000087982591000000000000000000000933384030000000000000000000000088526222000000000000000000000931236600000000000000000000000089074243000000000000000000000929094100000000000000000000000089626795000000000000000000000926956530000000000000000000000090184021000000000000000000000924823880000000000000000000000090746071000000000000000000000922696130000000000000000000000091313101000000000000000000000920573280000000000000000000000091885274000000000000000000000918455320000000000000000000000092462758000000000000000000000916342230000000000000000000000093045728000000000000000000000914234000000000000000000000000093634365000000000000000000000912130620000000000000000000000094228857000000000000000000000910032080000000000000000000000094829401000000000000000000000907938360000000000000000000000095436199000000000000000000000905849470000000000000000000000096049461000000000000000000000903765380000000000000000000000096669405000000000000000000000901686080000000000000,
    43461965000000000000000000001208085600000000000000000000000043728061000000000000000000001205306200000000000000000000000043996633000000000000000000001202533100000000000000000000000044267687000000000000000000001199766400000000000000000000000044541232000000000000000000001197006100000000000000000000000044817271000000000000000000001194252200000000000000000000000045095811000000000000000000001191504600000000000000000000000045376855000000000000000000001188763300000000000000000000000045660409000000000000000000001186028300000000000000000000000045946474000000000000000000001183299600000000000000000000000046235054000000000000000000001180577200000000000000000000000046526152000000000000000000001177861000000000000000000000000046819768000000000000000000001175151100000000000000000000000047115904000000000000000000001172447400000000000000000000000047414559000000000000000000001169750000000000000000000000000047715734000000000000000000001167058700000000000000000000000048019428000000000000000000001164373700000000000000000000000048325638000000000000000000001161694800000000000000000000000048634364000000000000000000001159022100000000000000000000000048945601000000000000000000001156355500000000000000000000000049259347000000000000000000001153695100000000000000000000000049575597000000000000000000001151040800000000000000000000000049894347000000000000000000001148392600000000000000000000000050215591000000000000000000001145750500000000000000000000000050539323000000000000000000001143114400000000000000000000000050865538000000000000000000001140484500000000000000000000000051194228000000000000000000001137860600000000000000000000000051525385000000000000000000001135242700000000000000000000000051859002000000000000000000001132630800000000000000000000000052195069000000000000000000001130025000000000000000000000000052533578000000000000000000001127425100000000000000000000000052874519000000000000000000001124831300000000000000000000000053217881000000000000000000001122243400000000000000000000000053563654000000000000000000001119661400000000000000000000000053911828000000000000000000001117085400000000000000000000000054262390000000000000000000001114515300000000000000000000000054615329000000000000000000001111951200000000000000000000000054970633000000000000000000001109392900000000000000000000000055328289000000000000000000001106840500000000000000000000000055688284000000000000000000001104294000000000000000000000000056050607000000000000000000001101753300000000000000000000000056415243000000000000000000001099218500000000000000000000000056782178000000000000000000001096689600000000000000000000000057151401000000000000000000001094166400000000000000000000000057522896000000000000000000001091649100000000000000000000000057896650000000000000000000001089137500000000000000000000000058272650000000000000000000001086631700000000000000000000000058650881000000000000000000001084131700000000000000000000000059031331000000000000000000001081637400000000000000000000000059413985000000000000000000001079148900000000000000000000000059798830000000000000000000001076666100000000000000000000000060185853000000000000000000001074189000000000000000000000000060575042000000000000000000001071717600000000000000000000000060966382000000000000000000001069251900000000000000000000000061359863000000000000000000001066791900000000000000000000000061755473000000000000000000001064337500000000000000000000000062153199000000000000000000001061888800000000000000000000000062553032000000000000000000001059445700000000000000000000000062954960000000000000000000001057008200000000000000000000000063358975000000000000000000001054576400000000000000000000000063765067000000000000000000001052150100000000000000000000000064173228000000000000000000001049729400000000000000000000000064583451000000000000000000001047314300000000000000000000000064995730000000000000000000001044904800000000000000,
    30981051000000000000000000001399971000000000000000000000000031118199000000000000000000001396750100000000000000000000000031256827000000000000000000001393536600000000000000000000000031396951000000000000000000001390330500000000000000000000000031538587000000000000000000001387131800000000000000000000000031681753000000000000000000001383940400000000000000000000000031826466000000000000000000001380756400000000000000000000000031972741000000000000000000001377579700000000000000000000000032120598000000000000000000001374410300000000000000000000000032270051000000000000000000001371248100000000000000000000000032421120000000000000000000001368093300000000000000000000000032573821000000000000000000001364945700000000000000000000000032728172000000000000000000001361805400000000000000000000000032884190000000000000000000001358672300000000000000000000000033041893000000000000000000001355546400000000000000000000000033201298000000000000000000001352427700000000000000000000000033362424000000000000000000001349316200000000000000000000000033525289000000000000000000001346211800000000000000000000000033689909000000000000000000001343114500000000000000000000000033856304000000000000000000001340024400000000000000000000000034024490000000000000000000001336941400000000000000000000000034194486000000000000000000001333865500000000000000000000000034366311000000000000000000001330796700000000000000000000000034539981000000000000000000001327734900000000000000000000000034715516000000000000000000001324680200000000000000000000000034892932000000000000000000001321632500000000000000000000000035072249000000000000000000001318591800000000000000000000000035253484000000000000000000001315558200000000000000000000000035436655000000000000000000001312531400000000000000000000000035621780000000000000000000001309511700000000000000000000000035808877000000000000000000001306498900000000000000000000000035997964000000000000000000001303493000000000000000000000000036189059000000000000000000001300494100000000000000000000000036382179000000000000000000001297502000000000000000000000000036577342000000000000000000001294516900000000000000000000000036774565000000000000000000001291538600000000000000000000000036973865000000000000000000001288567100000000000000000000000037175261000000000000000000001285602500000000000000000000000037378769000000000000000000001282644700000000000000000000000037584405000000000000000000001279693800000000000000000000000037792188000000000000000000001276749600000000000000000000000038002133000000000000000000001273812100000000000000000000000038214256000000000000000000001270881500000000000000000000000038428575000000000000000000001267957600000000000000000000000038645104000000000000000000001265040400000000000000000000000038863860000000000000000000001262129900000000000000000000000039084858000000000000000000001259226100000000000000000000000039308113000000000000000000001256329000000000000000000000000039533640000000000000000000001253438600000000000000000000000039761455000000000000000000001250554800000000000000000000000039991570000000000000000000001247677600000000000000000000000040224001000000000000000000001244807100000000000000000000000040458760000000000000000000001241943100000000000000000000000040695862000000000000000000001239085800000000000000000000000040935319000000000000000000001236235000000000000000000000000041177143000000000000000000001233390800000000000000000000000041421347000000000000000000001230553200000000000000000000000041667942000000000000000000001227722000000000000000000000000041916941000000000000000000001224897400000000000000000000000042168353000000000000000000001222079300000000000000000000000042422189000000000000000000001219267600000000000000000000000042678459000000000000000000001216462500000000000000000000000042937172000000000000000000001213663700000000000000000000000043198338000000000000000000001210871500000000000000,
    24630615000000000000000000001622334500000000000000000000000024701124000000000000000000001618602000000000000000000000000024772341000000000000000000001614878000000000000000000000000024844272000000000000000000001611162700000000000000000000000024916926000000000000000000001607455900000000000000000000000024990311000000000000000000001603757600000000000000000000000025064437000000000000000000001600067800000000000000000000000025139310000000000000000000001596386600000000000000000000000025214941000000000000000000001592713700000000000000000000000025291337000000000000000000001589049400000000000000000000000025368509000000000000000000001585393500000000000000000000000025446463000000000000000000001581745900000000000000000000000025525211000000000000000000001578106800000000000000000000000025604761000000000000000000001574476100000000000000000000000025685122000000000000000000001570853700000000000000000000000025766303000000000000000000001567239600000000000000000000000025848315000000000000000000001563633800000000000000000000000025931167000000000000000000001560036400000000000000000000000026014869000000000000000000001556447200000000000000000000000026099431000000000000000000001552866300000000000000000000000026184862000000000000000000001549293600000000000000000000000026271174000000000000000000001545729100000000000000000000000026358375000000000000000000001542172900000000000000000000000026446477000000000000000000001538624800000000000000000000000026535491000000000000000000001535084900000000000000000000000026625426000000000000000000001531553100000000000000000000000026716294000000000000000000001528029500000000000000000000000026808105000000000000000000001524513900000000000000000000000026900872000000000000000000001521006500000000000000000000000026994604000000000000000000001517507100000000000000000000000027089313000000000000000000001514015700000000000000000000000027185011000000000000000000001510532400000000000000000000000027281709000000000000000000001507057200000000000000000000000027379419000000000000000000001503589900000000000000000000000027478153000000000000000000001500130600000000000000000000000027577923000000000000000000001496679200000000000000000000000027678741000000000000000000001493235800000000000000000000000027780620000000000000000000001489800300000000000000000000000027883571000000000000000000001486372700000000000000000000000027987608000000000000000000001482953000000000000000000000000028092743000000000000000000001479541200000000000000000000000028198988000000000000000000001476137200000000000000000000000028306358000000000000000000001472741000000000000000000000000028414865000000000000000000001469352700000000000000000000000028524522000000000000000000001465972200000000000000000000000028635344000000000000000000001462599400000000000000000000000028747343000000000000000000001459234400000000000000000000000028860533000000000000000000001455877100000000000000000000000028974928000000000000000000001452527600000000000000000000000029090542000000000000000000001449185800000000000000000000000029207390000000000000000000001445851600000000000000000000000029325486000000000000000000001442525100000000000000000000000029444844000000000000000000001439206300000000000000000000000029565478000000000000000000001435895100000000000000000000000029687404000000000000000000001432591600000000000000000000000029810637000000000000000000001429295600000000000000000000000029935191000000000000000000001426007200000000000000000000000030061082000000000000000000001422726400000000000000000000000030188325000000000000000000001419453100000000000000000000000030316935000000000000000000001416187400000000000000000000000030446929000000000000000000001412929200000000000000000000000030578321000000000000000000001409678400000000000000000000000030711129000000000000000000001406435200000000000000000000000030845367000000000000000000001403199400000000000000,
    21280799000000000000000000001880016800000000000000000000000021319247000000000000000000001875691500000000000000000000000021358041000000000000000000001871376100000000000000000000000021397186000000000000000000001867070600000000000000000000000021436685000000000000000000001862775000000000000000000000000021476542000000000000000000001858489300000000000000000000000021516761000000000000000000001854213500000000000000000000000021557346000000000000000000001849947500000000000000000000000021598302000000000000000000001845691300000000000000000000000021639631000000000000000000001841444900000000000000000000000021681339000000000000000000001837208300000000000000000000000021723428000000000000000000001832981400000000000000000000000021765905000000000000000000001828764300000000000000000000000021808772000000000000000000001824556900000000000000000000000021852034000000000000000000001820359100000000000000000000000021895695000000000000000000001816171000000000000000000000000021939761000000000000000000001811992500000000000000000000000021984234000000000000000000001807823700000000000000000000000022029120000000000000000000001803664400000000000000000000000022074424000000000000000000001799514700000000000000000000000022120149000000000000000000001795374600000000000000000000000022166301000000000000000000001791243900000000000000000000000022212884000000000000000000001787122800000000000000000000000022259903000000000000000000001783011200000000000000000000000022307363000000000000000000001778909000000000000000000000000022355268000000000000000000001774816300000000000000000000000022403625000000000000000000001770732900000000000000000000000022452437000000000000000000001766659000000000000000000000000022501710000000000000000000001762594500000000000000000000000022551448000000000000000000001758539200000000000000000000000022601658000000000000000000001754493400000000000000000000000022652344000000000000000000001750456800000000000000000000000022703511000000000000000000001746429500000000000000000000000022755166000000000000000000001742411500000000000000000000000022807313000000000000000000001738402700000000000000000000000022859958000000000000000000001734403200000000000000000000000022913106000000000000000000001730412800000000000000000000000022966764000000000000000000001726431700000000000000000000000023020936000000000000000000001722459700000000000000000000000023075630000000000000000000001718496800000000000000000000000023130849000000000000000000001714543100000000000000000000000023186601000000000000000000001710598400000000000000000000000023242892000000000000000000001706662800000000000000000000000023299727000000000000000000001702736300000000000000000000000023357113000000000000000000001698818800000000000000000000000023415055000000000000000000001694910300000000000000000000000023473561000000000000000000001691010900000000000000000000000023532636000000000000000000001687120300000000000000000000000023592287000000000000000000001683238800000000000000000000000023652520000000000000000000001679366200000000000000000000000023713343000000000000000000001675502400000000000000000000000023774761000000000000000000001671647600000000000000000000000023836782000000000000000000001667801600000000000000000000000023899413000000000000000000001663964500000000000000000000000023962660000000000000000000001660136200000000000000000000000024026530000000000000000000001656316800000000000000000000000024091030000000000000000000001652506100000000000000000000000024156168000000000000000000001648704100000000000000000000000024221952000000000000000000001644911000000000000000000000000024288387000000000000000000001641126500000000000000000000000024355482000000000000000000001637350800000000000000000000000024423245000000000000000000001633583700000000000000000000000024491683000000000000000000001629825300000000000000000000000024560803000000000000000000001626075600000000000000,
    19397751000000000000000000002178628000000000000000000000000019420181000000000000000000002173615600000000000000000000000019442788000000000000000000002168614800000000000000000000000019465573000000000000000000002163625400000000000000000000000019488540000000000000000000002158647600000000000000000000000019511689000000000000000000002153681200000000000000000000000019535023000000000000000000002148726200000000000000000000000019558543000000000000000000002143782600000000000000000000000019582251000000000000000000002138850400000000000000000000000019606149000000000000000000002133929500000000000000000000000019630240000000000000000000002129020000000000000000000000000019654525000000000000000000002124121800000000000000000000000019679006000000000000000000002119234800000000000000000000000019703685000000000000000000002114359100000000000000000000000019728564000000000000000000002109494500000000000000000000000019753645000000000000000000002104641200000000000000000000000019778931000000000000000000002099799100000000000000000000000019804424000000000000000000002094968100000000000000000000000019830125000000000000000000002090148200000000000000000000000019856036000000000000000000002085339400000000000000000000000019882161000000000000000000002080541600000000000000000000000019908501000000000000000000002075754900000000000000000000000019935059000000000000000000002070979200000000000000000000000019961836000000000000000000002066214500000000000000000000000019988835000000000000000000002061460800000000000000000000000020016058000000000000000000002056718000000000000000000000000020043508000000000000000000002051986100000000000000000000000020071188000000000000000000002047265000000000000000000000000020099098000000000000000000002042554900000000000000000000000020127243000000000000000000002037855600000000000000000000000020155624000000000000000000002033167100000000000000000000000020184244000000000000000000002028489400000000000000000000000020213105000000000000000000002023822400000000000000000000000020242210000000000000000000002019166200000000000000000000000020271562000000000000000000002014520700000000000000000000000020301162000000000000000000002009885900000000000000000000000020331015000000000000000000002005261800000000000000000000000020361121000000000000000000002000648200000000000000000000000020391485000000000000000000001996045400000000000000000000000020422109000000000000000000001991453000000000000000000000000020452995000000000000000000001986871300000000000000000000000020484147000000000000000000001982300100000000000000000000000020515566000000000000000000001977739400000000000000000000000020547257000000000000000000001973189200000000000000000000000020579222000000000000000000001968649500000000000000000000000020611463000000000000000000001964120200000000000000000000000020643985000000000000000000001959601400000000000000000000000020676789000000000000000000001955092900000000000000000000000020709879000000000000000000001950594800000000000000000000000020743257000000000000000000001946107100000000000000000000000020776928000000000000000000001941629700000000000000000000000020810894000000000000000000001937162600000000000000000000000020845158000000000000000000001932705700000000000000000000000020879724000000000000000000001928259200000000000000000000000020914594000000000000000000001923822800000000000000000000000020949773000000000000000000001919396700000000000000000000000020985263000000000000000000001914980700000000000000000000000021021067000000000000000000001910574900000000000000000000000021057189000000000000000000001906179200000000000000000000000021093633000000000000000000001901793700000000000000000000000021130402000000000000000000001897418200000000000000000000000021167500000000000000000000001893052800000000000000000000000021204929000000000000000000001888697500000000000000000000000021242695000000000000000000001884352200000000000000,
    18261665000000000000000000002524668800000000000000000000000018275728000000000000000000002518860300000000000000000000000018289886000000000000000000002513065200000000000000000000000018304140000000000000000000002507283300000000000000000000000018318492000000000000000000002501514800000000000000000000000018332941000000000000000000002495759600000000000000000000000018347489000000000000000000002490017600000000000000000000000018362138000000000000000000002484288800000000000000000000000018376887000000000000000000002478573200000000000000000000000018391737000000000000000000002472870700000000000000000000000018406691000000000000000000002467181400000000000000000000000018421748000000000000000000002461505100000000000000000000000018436910000000000000000000002455842000000000000000000000000018452177000000000000000000002450191800000000000000000000000018467551000000000000000000002444554600000000000000000000000018483032000000000000000000002438930400000000000000000000000018498622000000000000000000002433319200000000000000000000000018514322000000000000000000002427720800000000000000000000000018530133000000000000000000002422135400000000000000000000000018546055000000000000000000002416562800000000000000000000000018562090000000000000000000002411003000000000000000000000000018578238000000000000000000002405456000000000000000000000000018594502000000000000000000002399921700000000000000000000000018610882000000000000000000002394400200000000000000000000000018627379000000000000000000002388891400000000000000000000000018643994000000000000000000002383395300000000000000000000000018660728000000000000000000002377911800000000000000000000000018677584000000000000000000002372441000000000000000000000000018694560000000000000000000002366982700000000000000000000000018711660000000000000000000002361537000000000000000000000000018728884000000000000000000002356103800000000000000000000000018746233000000000000000000002350683100000000000000000000000018763708000000000000000000002345274800000000000000000000000018781312000000000000000000002339879100000000000000000000000018799044000000000000000000002334495700000000000000000000000018816906000000000000000000002329124700000000000000000000000018834900000000000000000000002323766100000000000000000000000018853027000000000000000000002318419800000000000000000000000018871288000000000000000000002313085800000000000000000000000018889684000000000000000000002307764100000000000000000000000018908216000000000000000000002302454600000000000000000000000018926887000000000000000000002297157400000000000000000000000018945698000000000000000000002291872300000000000000000000000018964649000000000000000000002286599400000000000000000000000018983742000000000000000000002281338600000000000000000000000019002979000000000000000000002276089900000000000000000000000019022360000000000000000000002270853300000000000000000000000019041889000000000000000000002265628700000000000000000000000019061565000000000000000000002260416200000000000000000000000019081390000000000000000000002255215700000000000000000000000019101367000000000000000000002250027100000000000000000000000019121496000000000000000000002244850400000000000000000000000019141778000000000000000000002239685700000000000000000000000019162216000000000000000000002234532800000000000000000000000019182811000000000000000000002229391900000000000000000000000019203565000000000000000000002224262700000000000000000000000019224478000000000000000000002219145300000000000000000000000019245554000000000000000000002214039700000000000000000000000019266793000000000000000000002208945900000000000000000000000019288197000000000000000000002203863800000000000000000000000019309767000000000000000000002198793300000000000000000000000019331506000000000000000000002193734600000000000000000000000019353415000000000000000000002188687400000000000000000000000019375496000000000000000000002183651900000000000000,
    17526292000000000000000000002925672800000000000000000000000017535706000000000000000000002918941700000000000000000000000017545175000000000000000000002912226100000000000000000000000017554700000000000000000000002905525900000000000000000000000017564281000000000000000000002898841200000000000000000000000017573918000000000000000000002892171800000000000000000000000017583612000000000000000000002885517800000000000000000000000017593363000000000000000000002878879100000000000000000000000017603172000000000000000000002872255600000000000000000000000017613040000000000000000000002865647400000000000000000000000017622966000000000000000000002859054400000000000000000000000017632951000000000000000000002852476600000000000000000000000017642997000000000000000000002845913900000000000000000000000017653102000000000000000000002839366300000000000000000000000017663268000000000000000000002832833800000000000000000000000017673496000000000000000000002826316200000000000000000000000017683785000000000000000000002819813700000000000000000000000017694136000000000000000000002813326200000000000000000000000017704550000000000000000000002806853600000000000000000000000017715027000000000000000000002800395800000000000000000000000017725569000000000000000000002793952900000000000000000000000017736174000000000000000000002787524900000000000000000000000017746844000000000000000000002781111600000000000000000000000017757580000000000000000000002774713100000000000000000000000017768382000000000000000000002768329300000000000000000000000017779250000000000000000000002761960200000000000000000000000017790186000000000000000000002755605800000000000000000000000017801189000000000000000000002749265900000000000000000000000017812260000000000000000000002742940700000000000000000000000017823400000000000000000000002736630000000000000000000000000017834609000000000000000000002730333800000000000000000000000017845889000000000000000000002724052200000000000000000000000017857239000000000000000000002717784900000000000000000000000017868660000000000000000000002711532100000000000000000000000017880153000000000000000000002705293700000000000000000000000017891719000000000000000000002699069600000000000000000000000017903357000000000000000000002692859900000000000000000000000017915069000000000000000000002686664400000000000000000000000017926856000000000000000000002680483200000000000000000000000017938717000000000000000000002674316200000000000000000000000017950655000000000000000000002668163400000000000000000000000017962668000000000000000000002662024700000000000000000000000017974758000000000000000000002655900200000000000000000000000017986926000000000000000000002649789800000000000000000000000017999173000000000000000000002643693400000000000000000000000018011498000000000000000000002637611000000000000000000000000018023903000000000000000000002631542700000000000000000000000018036389000000000000000000002625488300000000000000000000000018048955000000000000000000002619447800000000000000000000000018061604000000000000000000002613421200000000000000000000000018074334000000000000000000002607408500000000000000000000000018087149000000000000000000002601409700000000000000000000000018100047000000000000000000002595424600000000000000000000000018113030000000000000000000002589453300000000000000000000000018126099000000000000000000002583495700000000000000000000000018139254000000000000000000002577551900000000000000000000000018152496000000000000000000002571621700000000000000000000000018165826000000000000000000002565705200000000000000000000000018179245000000000000000000002559802300000000000000000000000018192753000000000000000000002553912900000000000000000000000018206352000000000000000000002548037100000000000000000000000018220041000000000000000000002542174800000000000000000000000018233823000000000000000000002536326100000000000000000000000018247697000000000000000000002530490700000000000000,
    17021248000000000000000000003390370000000000000000000000000017027878000000000000000000003382569800000000000000000000000017034543000000000000000000003374787500000000000000000000000017041242000000000000000000003367023100000000000000000000000017047976000000000000000000003359276600000000000000000000000017054745000000000000000000003351547900000000000000000000000017061549000000000000000000003343837000000000000000000000000017068389000000000000000000003336143800000000000000000000000017075265000000000000000000003328468300000000000000000000000017082177000000000000000000003320810500000000000000000000000017089125000000000000000000003313170300000000000000000000000017096110000000000000000000003305547700000000000000000000000017103132000000000000000000003297942600000000000000000000000017110191000000000000000000003290355000000000000000000000000017117287000000000000000000003282784900000000000000000000000017124421000000000000000000003275232200000000000000000000000017131592000000000000000000003267696900000000000000000000000017138802000000000000000000003260178900000000000000000000000017146051000000000000000000003252678200000000000000000000000017153338000000000000000000003245194700000000000000000000000017160663000000000000000000003237728500000000000000000000000017168029000000000000000000003230279400000000000000000000000017175433000000000000000000003222847500000000000000000000000017182878000000000000000000003215432700000000000000000000000017190363000000000000000000003208035000000000000000000000000017197888000000000000000000003200654200000000000000000000000017205453000000000000000000003193290500000000000000000000000017213060000000000000000000003185943700000000000000000000000017220708000000000000000000003178613800000000000000000000000017228397000000000000000000003171300700000000000000000000000017236129000000000000000000003164004500000000000000000000000017243902000000000000000000003156725100000000000000000000000017251718000000000000000000003149462400000000000000000000000017259577000000000000000000003142216400000000000000000000000017267479000000000000000000003134987100000000000000000000000017275424000000000000000000003127774400000000000000000000000017283414000000000000000000003120578400000000000000000000000017291447000000000000000000003113398800000000000000000000000017299525000000000000000000003106235800000000000000000000000017307647000000000000000000003099089300000000000000000000000017315814000000000000000000003091959200000000000000000000000017324027000000000000000000003084845600000000000000000000000017332286000000000000000000003077748200000000000000000000000017340591000000000000000000003070667300000000000000000000000017348942000000000000000000003063602600000000000000000000000017357340000000000000000000003056554100000000000000000000000017365785000000000000000000003049521900000000000000000000000017374278000000000000000000003042505900000000000000000000000017382819000000000000000000003035506000000000000000000000000017391407000000000000000000003028522200000000000000000000000017400045000000000000000000003021554400000000000000000000000017408731000000000000000000003014602800000000000000000000000017417467000000000000000000003007667000000000000000000000000017426253000000000000000000003000747300000000000000000000000017435089000000000000000000002993843500000000000000000000000017443975000000000000000000002986955500000000000000000000000017452912000000000000000000002980083400000000000000000000000017461901000000000000000000002973227200000000000000000000000017470941000000000000000000002966386600000000000000000000000017480033000000000000000000002959561900000000000000000000000017489178000000000000000000002952752800000000000000000000000017498376000000000000000000002945959400000000000000000000000017507628000000000000000000002939181600000000000000000000000017516933000000000000000000002932419400000000000000,
    16659304000000000000000000003928877000000000000000000000000016664131000000000000000000003919837900000000000000000000000016668981000000000000000000003910819500000000000000000000000016673855000000000000000000003901821900000000000000000000000016678752000000000000000000003892844900000000000000000000000016683673000000000000000000003883888600000000000000000000000016688617000000000000000000003874953000000000000000000000000016693586000000000000000000003866037900000000000000000000000016698578000000000000000000003857143300000000000000000000000016703594000000000000000000003848269100000000000000000000000016708635000000000000000000003839415400000000000000000000000016713700000000000000000000003830582100000000000000000000000016718790000000000000000000003821769000000000000000000000000016723904000000000000000000003812976300000000000000000000000016729043000000000000000000003804203700000000000000000000000016734207000000000000000000003795451400000000000000000000000016739397000000000000000000003786719200000000000000000000000016744611000000000000000000003778007100000000000000000000000016749851000000000000000000003769315000000000000000000000000016755117000000000000000000003760642900000000000000000000000016760408000000000000000000003751990800000000000000000000000016765725000000000000000000003743358600000000000000000000000016771068000000000000000000003734746300000000000000000000000016776438000000000000000000003726153700000000000000000000000016781833000000000000000000003717581000000000000000000000000016787255000000000000000000003709027900000000000000000000000016792704000000000000000000003700494500000000000000000000000016798180000000000000000000003691980800000000000000000000000016803682000000000000000000003683486700000000000000000000000016809212000000000000000000003675012000000000000000000000000016814769000000000000000000003666556900000000000000000000000016820354000000000000000000003658121300000000000000000000000016825966000000000000000000003649705000000000000000000000000016831606000000000000000000003641308200000000000000000000000016837274000000000000000000003632930600000000000000000000000016842970000000000000000000003624572300000000000000000000000016848695000000000000000000003616233200000000000000000000000016854448000000000000000000003607913400000000000000000000000016860230000000000000000000003599612600000000000000000000000016866040000000000000000000003591331000000000000000000000000016871880000000000000000000003583068400000000000000000000000016877749000000000000000000003574824800000000000000000000000016883647000000000000000000003566600200000000000000000000000016889575000000000000000000003558394500000000000000000000000016895533000000000000000000003550207700000000000000000000000016901520000000000000000000003542039800000000000000000000000016907538000000000000000000003533890600000000000000000000000016913586000000000000000000003525760200000000000000000000000016919665000000000000000000003517648400000000000000000000000016925775000000000000000000003509555400000000000000000000000016931915000000000000000000003501480900000000000000000000000016938087000000000000000000003493425100000000000000000000000016944290000000000000000000003485387700000000000000000000000016950524000000000000000000003477368900000000000000000000000016956791000000000000000000003469368500000000000000000000000016963089000000000000000000003461386500000000000000000000000016969419000000000000000000003453422900000000000000000000000016975782000000000000000000003445477600000000000000000000000016982178000000000000000000003437550600000000000000000000000016988606000000000000000000003429641800000000000000000000000016995068000000000000000000003421751200000000000000000000000017001562000000000000000000003413878800000000000000000000000017008091000000000000000000003406024500000000000000000000000017014652000000000000000000003398188200000000000000,
    16393438000000000000000000004552917500000000000000000000000016397006000000000000000000004542442600000000000000000000000016400591000000000000000000004531991800000000000000000000000016404193000000000000000000004521565000000000000000000000000016407811000000000000000000004511162200000000000000000000000016411447000000000000000000004500783400000000000000000000000016415100000000000000000000004490428400000000000000000000000016418771000000000000000000004480097300000000000000000000000016422458000000000000000000004469789900000000000000000000000016426163000000000000000000004459506200000000000000000000000016429885000000000000000000004449246300000000000000000000000016433625000000000000000000004439009900000000000000000000000016437383000000000000000000004428797000000000000000000000000016441158000000000000000000004418607700000000000000000000000016444951000000000000000000004408441800000000000000000000000016448762000000000000000000004398299300000000000000000000000016452590000000000000000000004388180100000000000000000000000016456437000000000000000000004378084200000000000000000000000016460302000000000000000000004368011500000000000000000000000016464185000000000000000000004357962000000000000000000000000016468086000000000000000000004347935700000000000000000000000016472006000000000000000000004337932400000000000000000000000016475944000000000000000000004327952100000000000000000000000016479901000000000000000000004317994700000000000000000000000016483876000000000000000000004308060300000000000000000000000016487870000000000000000000004298148800000000000000000000000016491883000000000000000000004288260000000000000000000000000016495915000000000000000000004278394000000000000000000000000016499966000000000000000000004268550700000000000000000000000016504036000000000000000000004258730000000000000000000000000016508125000000000000000000004248931900000000000000000000000016512233000000000000000000004239156400000000000000000000000016516361000000000000000000004229403400000000000000000000000016520508000000000000000000004219672800000000000000000000000016524675000000000000000000004209964600000000000000000000000016528861000000000000000000004200278700000000000000000000000016533068000000000000000000004190615100000000000000000000000016537294000000000000000000004180973700000000000000000000000016541540000000000000000000004171354600000000000000000000000016545806000000000000000000004161757500000000000000000000000016550092000000000000000000004152182600000000000000000000000016554399000000000000000000004142629600000000000000000000000016558726000000000000000000004133098700000000000000000000000016563074000000000000000000004123589600000000000000000000000016567442000000000000000000004114102500000000000000000000000016571831000000000000000000004104637200000000000000000000000016576240000000000000000000004095193600000000000000000000000016580671000000000000000000004085771800000000000000000000000016585123000000000000000000004076371600000000000000000000000016589595000000000000000000004066993100000000000000000000000016594089000000000000000000004057636200000000000000000000000016598605000000000000000000004048300800000000000000000000000016603142000000000000000000004038986800000000000000000000000016607700000000000000000000004029694300000000000000000000000016612281000000000000000000004020423200000000000000000000000016616883000000000000000000004011173400000000000000000000000016621507000000000000000000004001944900000000000000000000000016626153000000000000000000003992737600000000000000000000000016630821000000000000000000003983551500000000000000000000000016635512000000000000000000003974386500000000000000000000000016640225000000000000000000003965242700000000000000000000000016644960000000000000000000003956119800000000000000000000000016649719000000000000000000003947018000000000000000000000000016654500000000000000000000003937937100000000000000,
    16197050000000000000000000005276076900000000000000000000000016199673000000000000000000005263938200000000000000000000000016202309000000000000000000005251827500000000000000000000000016204958000000000000000000005239744600000000000000000000000016207621000000000000000000005227689500000000000000000000000016210297000000000000000000005215662100000000000000000000000016212985000000000000000000005203662500000000000000000000000016215688000000000000000000005191690400000000000000000000000016218403000000000000000000005179745800000000000000000000000016221133000000000000000000005167828800000000000000000000000016223875000000000000000000005155939200000000000000000000000016226631000000000000000000005144076900000000000000000000000016229401000000000000000000005132241900000000000000000000000016232184000000000000000000005120434100000000000000000000000016234981000000000000000000005108653500000000000000000000000016237792000000000000000000005096900000000000000000000000000016240616000000000000000000005085173600000000000000000000000016243454000000000000000000005073474100000000000000000000000016246306000000000000000000005061801600000000000000000000000016249172000000000000000000005050155900000000000000000000000016252052000000000000000000005038537000000000000000000000000016254946000000000000000000005026944800000000000000000000000016257854000000000000000000005015379300000000000000000000000016260776000000000000000000005003840400000000000000000000000016263712000000000000000000004992328000000000000000000000000016266663000000000000000000004980842200000000000000000000000016269627000000000000000000004969382800000000000000000000000016272606000000000000000000004957949700000000000000000000000016275600000000000000000000004946542900000000000000000000000016278608000000000000000000004935162400000000000000000000000016281630000000000000000000004923808100000000000000000000000016284667000000000000000000004912479800000000000000000000000016287718000000000000000000004901177700000000000000000000000016290784000000000000000000004889901500000000000000000000000016293865000000000000000000004878651300000000000000000000000016296961000000000000000000004867427000000000000000000000000016300071000000000000000000004856228500000000000000000000000016303197000000000000000000004845055800000000000000000000000016306337000000000000000000004833908700000000000000000000000016309492000000000000000000004822787400000000000000000000000016312663000000000000000000004811691600000000000000000000000016315848000000000000000000004800621300000000000000000000000016319049000000000000000000004789576500000000000000000000000016322265000000000000000000004778557100000000000000000000000016325496000000000000000000004767563100000000000000000000000016328743000000000000000000004756594300000000000000000000000016332005000000000000000000004745650800000000000000000000000016335282000000000000000000004734732500000000000000000000000016338575000000000000000000004723839300000000000000000000000016341884000000000000000000004712971100000000000000000000000016345209000000000000000000004702128000000000000000000000000016348549000000000000000000004691309800000000000000000000000016351905000000000000000000004680516500000000000000000000000016355277000000000000000000004669748000000000000000000000000016358665000000000000000000004659004300000000000000000000000016362069000000000000000000004648285300000000000000000000000016365489000000000000000000004637591000000000000000000000000016368925000000000000000000004626921300000000000000000000000016372378000000000000000000004616276100000000000000000000000016375846000000000000000000004605655400000000000000000000000016379332000000000000000000004595059200000000000000000000000016382833000000000000000000004584487300000000000000000000000016386351000000000000000000004573939800000000000000000000000016389886000000000000000000004563416500000000000000,
    16054690000000000000000000006114098900000000000000000000000016056550000000000000000000006100032200000000000000000000000016058421000000000000000000006085997800000000000000000000000016060303000000000000000000006071995700000000000000000000000016062196000000000000000000006058025900000000000000000000000016064101000000000000000000006044088200000000000000000000000016066016000000000000000000006030182500000000000000000000000016067942000000000000000000006016308900000000000000000000000016069879000000000000000000006002467100000000000000000000000016071828000000000000000000005988657200000000000000000000000016073788000000000000000000005974879100000000000000000000000016075759000000000000000000005961132700000000000000000000000016077741000000000000000000005947417900000000000000000000000016079735000000000000000000005933734700000000000000000000000016081739000000000000000000005920082900000000000000000000000016083755000000000000000000005906462600000000000000000000000016085783000000000000000000005892873600000000000000000000000016087822000000000000000000005879315800000000000000000000000016089872000000000000000000005865789300000000000000000000000016091934000000000000000000005852293800000000000000000000000016094007000000000000000000005838829400000000000000000000000016096091000000000000000000005825396000000000000000000000000016098187000000000000000000005811993500000000000000000000000016100295000000000000000000005798621900000000000000000000000016102414000000000000000000005785281000000000000000000000000016104545000000000000000000005771970800000000000000000000000016106687000000000000000000005758691200000000000000000000000016108841000000000000000000005745442100000000000000000000000016111007000000000000000000005732223600000000000000000000000016113185000000000000000000005719035500000000000000000000000016115374000000000000000000005705877700000000000000000000000016117575000000000000000000005692750100000000000000000000000016119788000000000000000000005679652800000000000000000000000016122013000000000000000000005666585600000000000000000000000016124249000000000000000000005653548500000000000000000000000016126498000000000000000000005640541400000000000000000000000016128758000000000000000000005627564200000000000000000000000016131031000000000000000000005614616800000000000000000000000016133315000000000000000000005601699200000000000000000000000016135612000000000000000000005588811400000000000000000000000016137921000000000000000000005575953200000000000000000000000016140241000000000000000000005563124600000000000000000000000016142574000000000000000000005550325500000000000000000000000016144919000000000000000000005537555900000000000000000000000016147277000000000000000000005524815600000000000000000000000016149646000000000000000000005512104600000000000000000000000016152028000000000000000000005499422900000000000000000000000016154423000000000000000000005486770400000000000000000000000016156829000000000000000000005474147000000000000000000000000016159248000000000000000000005461552600000000000000000000000016161680000000000000000000005448987200000000000000000000000016164124000000000000000000005436450700000000000000000000000016166580000000000000000000005423943000000000000000000000000016169049000000000000000000005411464200000000000000000000000016171531000000000000000000005399014000000000000000000000000016174025000000000000000000005386592500000000000000000000000016176532000000000000000000005374199500000000000000000000000016179052000000000000000000005361835100000000000000000000000016181585000000000000000000005349499100000000000000000000000016184130000000000000000000005337191500000000000000000000000016186688000000000000000000005324912200000000000000000000000016189259000000000000000000005312661200000000000000000000000016191843000000000000000000005300438300000000000000000000000016194440000000000000000000005288243600000000000000,
    15957598000000000000000000007085227500000000000000000000000015958793000000000000000000007068926500000000000000000000000015959998000000000000000000007052663000000000000000000000000015961214000000000000000000007036436900000000000000000000000015962439000000000000000000007020248200000000000000000000000015963674000000000000000000007004096700000000000000000000000015964919000000000000000000006987982300000000000000000000000015966175000000000000000000006971905100000000000000000000000015967440000000000000000000006955864800000000000000000000000015968715000000000000000000006939861400000000000000000000000015970000000000000000000000006923894900000000000000000000000015971296000000000000000000006907965000000000000000000000000015972601000000000000000000006892071900000000000000000000000015973917000000000000000000006876215300000000000000000000000015975242000000000000000000006860395100000000000000000000000015976578000000000000000000006844611400000000000000000000000015977924000000000000000000006828864000000000000000000000000015979280000000000000000000006813152800000000000000000000000015980646000000000000000000006797477800000000000000000000000015982022000000000000000000006781838800000000000000000000000015983408000000000000000000006766235800000000000000000000000015984805000000000000000000006750668700000000000000000000000015986211000000000000000000006735137400000000000000000000000015987628000000000000000000006719641900000000000000000000000015989055000000000000000000006704182000000000000000000000000015990492000000000000000000006688757700000000000000000000000015991940000000000000000000006673368800000000000000000000000015993398000000000000000000006658015400000000000000000000000015994866000000000000000000006642697300000000000000000000000015996344000000000000000000006627414400000000000000000000000015997833000000000000000000006612166700000000000000000000000015999331000000000000000000006596954100000000000000000000000016000841000000000000000000006581776500000000000000000000000016002360000000000000000000006566633800000000000000000000000016003890000000000000000000006551525900000000000000000000000016005430000000000000000000006536452800000000000000000000000016006981000000000000000000006521414400000000000000000000000016008542000000000000000000006506410500000000000000000000000016010114000000000000000000006491441200000000000000000000000016011696000000000000000000006476506300000000000000000000000016013288000000000000000000006461605800000000000000000000000016014891000000000000000000006446739600000000000000000000000016016504000000000000000000006431907600000000000000000000000016018128000000000000000000006417109700000000000000000000000016019762000000000000000000006402345800000000000000000000000016021407000000000000000000006387615900000000000000000000000016023063000000000000000000006372919900000000000000000000000016024729000000000000000000006358257700000000000000000000000016026406000000000000000000006343629300000000000000000000000016028093000000000000000000006329034500000000000000000000000016029791000000000000000000006314473200000000000000000000000016031499000000000000000000006299945500000000000000000000000016033219000000000000000000006285451200000000000000000000000016034949000000000000000000006270990300000000000000000000000016036689000000000000000000006256562600000000000000000000000016038441000000000000000000006242168100000000000000000000000016040203000000000000000000006227806700000000000000000000000016041976000000000000000000006213478400000000000000000000000016043760000000000000000000006199183000000000000000000000000016045554000000000000000000006184920600000000000000000000000016047360000000000000000000006170690900000000000000000000000016049176000000000000000000006156494000000000000000000000000016051003000000000000000000006142329700000000000000000000000016052841000000000000000000006128198000000000000000,
    15901533000000000000000000008210604600000000000000000000000015902101000000000000000000008191714500000000000000000000000015902679000000000000000000008172867800000000000000000000000015903267000000000000000000008154064400000000000000000000000015903865000000000000000000008135304400000000000000000000000015904472000000000000000000008116587400000000000000000000000015905089000000000000000000008097913600000000000000000000000015905716000000000000000000008079282700000000000000000000000015906353000000000000000000008060694700000000000000000000000015906999000000000000000000008042149400000000000000000000000015907655000000000000000000008023646800000000000000000000000015908321000000000000000000008005186800000000000000000000000015908997000000000000000000007986769300000000000000000000000015909682000000000000000000007968394100000000000000000000000015910378000000000000000000007950061200000000000000000000000015911083000000000000000000007931770500000000000000000000000015911797000000000000000000007913521800000000000000000000000015912522000000000000000000007895315200000000000000000000000015913256000000000000000000007877150400000000000000000000000015914000000000000000000000007859027400000000000000000000000015914753000000000000000000007840946100000000000000000000000015915517000000000000000000007822906500000000000000000000000015916290000000000000000000007804908300000000000000000000000015917073000000000000000000007786951500000000000000000000000015917865000000000000000000007769036100000000000000000000000015918668000000000000000000007751161800000000000000000000000015919480000000000000000000007733328700000000000000000000000015920302000000000000000000007715536600000000000000000000000015921134000000000000000000007697785500000000000000000000000015921975000000000000000000007680075100000000000000000000000015922826000000000000000000007662405600000000000000000000000015923687000000000000000000007644776700000000000000000000000015924558000000000000000000007627188300000000000000000000000015925438000000000000000000007609640400000000000000000000000015926328000000000000000000007592132900000000000000000000000015927228000000000000000000007574665700000000000000000000000015928138000000000000000000007557238600000000000000000000000015929058000000000000000000007539851700000000000000000000000015929987000000000000000000007522504700000000000000000000000015930926000000000000000000007505197700000000000000000000000015931875000000000000000000007487930400000000000000000000000015932834000000000000000000007470702900000000000000000000000015933802000000000000000000007453515100000000000000000000000015934780000000000000000000007436366800000000000000000000000015935768000000000000000000007419257900000000000000000000000015936766000000000000000000007402188400000000000000000000000015937774000000000000000000007385158200000000000000000000000015938791000000000000000000007368167100000000000000000000000015939819000000000000000000007351215200000000000000000000000015940856000000000000000000007334302200000000000000000000000015941903000000000000000000007317428200000000000000000000000015942960000000000000000000007300592900000000000000000000000015944027000000000000000000007283796400000000000000000000000015945103000000000000000000007267038600000000000000000000000015946189000000000000000000007250319300000000000000000000000015947286000000000000000000007233638500000000000000000000000015948392000000000000000000007216996000000000000000000000000015949508000000000000000000007200391900000000000000000000000015950634000000000000000000007183825900000000000000000000000015951770000000000000000000007167298100000000000000000000000015952915000000000000000000007150808300000000000000000000000015954071000000000000000000007134356400000000000000000000000015955237000000000000000000007117942300000000000000000000000015956412000000000000000000007101566100000000000000,
    15885770000000000000000000009514730200000000000000000000000015885699000000000000000000009492839700000000000000000000000015885637000000000000000000009470999500000000000000000000000015885586000000000000000000009449209500000000000000000000000015885545000000000000000000009427469700000000000000000000000015885514000000000000000000009405779900000000000000000000000015885494000000000000000000009384140000000000000000000000000015885484000000000000000000009362549900000000000000000000000015885484000000000000000000009341009500000000000000000000000015885494000000000000000000009319518600000000000000000000000015885515000000000000000000009298077100000000000000000000000015885546000000000000000000009276685000000000000000000000000015885587000000000000000000009255342200000000000000000000000015885638000000000000000000009234048400000000000000000000000015885700000000000000000000009212803600000000000000000000000015885772000000000000000000009191607700000000000000000000000015885853000000000000000000009170460500000000000000000000000015885945000000000000000000009149362000000000000000000000000015886047000000000000000000009128312000000000000000000000000015886160000000000000000000009107310500000000000000000000000015886282000000000000000000009086357300000000000000000000000015886415000000000000000000009065452300000000000000000000000015886557000000000000000000009044595400000000000000000000000015886710000000000000000000009023786500000000000000000000000015886872000000000000000000009003025400000000000000000000000015887045000000000000000000008982312200000000000000000000000015887228000000000000000000008961646500000000000000000000000015887421000000000000000000008941028500000000000000000000000015887624000000000000000000008920457800000000000000000000000015887837000000000000000000008899934500000000000000000000000015888059000000000000000000008879458400000000000000000000000015888292000000000000000000008859029400000000000000000000000015888535000000000000000000008838647400000000000000000000000015888788000000000000000000008818312300000000000000000000000015889051000000000000000000008798024000000000000000000000000015889324000000000000000000008777782400000000000000000000000015889606000000000000000000008757587300000000000000000000000015889899000000000000000000008737438700000000000000000000000015890202000000000000000000008717336500000000000000000000000015890514000000000000000000008697280500000000000000000000000015890837000000000000000000008677270600000000000000000000000015891169000000000000000000008657306800000000000000000000000015891511000000000000000000008637388900000000000000000000000015891863000000000000000000008617516900000000000000000000000015892225000000000000000000008597690500000000000000000000000015892597000000000000000000008577909800000000000000000000000015892979000000000000000000008558174600000000000000000000000015893371000000000000000000008538484800000000000000000000000015893772000000000000000000008518840300000000000000000000000015894184000000000000000000008499240900000000000000000000000015894605000000000000000000008479686700000000000000000000000015895036000000000000000000008460177500000000000000000000000015895477000000000000000000008440713100000000000000000000000015895928000000000000000000008421293600000000000000000000000015896388000000000000000000008401918700000000000000000000000015896858000000000000000000008382588400000000000000000000000015897339000000000000000000008363302500000000000000000000000015897829000000000000000000008344061100000000000000000000000015898328000000000000000000008324863900000000000000000000000015898838000000000000000000008305710800000000000000000000000015899357000000000000000000008286601900000000000000000000000015899887000000000000000000008267536900000000000000000000000015900426000000000000000000008248515700000000000000000000000015900974000000000000000000008229538300000000000000,
    15912727000000000000000000011025996000000000000000000000000015911953000000000000000000011000628000000000000000000000000015911191000000000000000000010975319000000000000000000000000015910440000000000000000000010950068000000000000000000000000015909701000000000000000000010924875000000000000000000000000015908974000000000000000000010899740000000000000000000000000015908258000000000000000000010874663000000000000000000000000015907554000000000000000000010849644000000000000000000000000015906862000000000000000000010824682000000000000000000000000015906181000000000000000000010799778000000000000000000000000015905511000000000000000000010774931000000000000000000000000015904853000000000000000000010750141000000000000000000000000015904206000000000000000000010725408000000000000000000000000015903571000000000000000000010700732000000000000000000000000015902947000000000000000000010676113000000000000000000000000015902335000000000000000000010651550000000000000000000000000015901734000000000000000000010627044000000000000000000000000015901144000000000000000000010602594000000000000000000000000015900565000000000000000000010578201000000000000000000000000015899998000000000000000000010553864000000000000000000000000015899442000000000000000000010529582000000000000000000000000015898897000000000000000000010505357000000000000000000000000015898363000000000000000000010481187000000000000000000000000015897841000000000000000000010457073000000000000000000000000015897329000000000000000000010433015000000000000000000000000015896829000000000000000000010409011000000000000000000000000015896340000000000000000000010385063000000000000000000000000015895862000000000000000000010361170000000000000000000000000015895395000000000000000000010337332000000000000000000000000015894939000000000000000000010313549000000000000000000000000015894494000000000000000000010289821000000000000000000000000015894060000000000000000000010266147000000000000000000000000015893636000000000000000000010242528000000000000000000000000015893224000000000000000000010218963000000000000000000000000015892823000000000000000000010195452000000000000000000000000015892433000000000000000000010171995000000000000000000000000015892054000000000000000000010148593000000000000000000000000015891685000000000000000000010125244000000000000000000000000015891327000000000000000000010101948000000000000000000000000015890980000000000000000000010078707000000000000000000000000015890644000000000000000000010055519000000000000000000000000015890319000000000000000000010032384000000000000000000000000015890004000000000000000000010009303000000000000000000000000015889701000000000000000000009986274100000000000000000000000015889408000000000000000000009963298700000000000000000000000015889125000000000000000000009940376100000000000000000000000015888854000000000000000000009917506200000000000000000000000015888593000000000000000000009894689000000000000000000000000015888342000000000000000000009871924300000000000000000000000015888102000000000000000000009849211900000000000000000000000015887873000000000000000000009826551800000000000000000000000015887655000000000000000000009803943800000000000000000000000015887447000000000000000000009781387900000000000000000000000015887250000000000000000000009758883800000000000000000000000015887063000000000000000000009736431500000000000000000000000015886886000000000000000000009714030900000000000000000000000015886721000000000000000000009691681800000000000000000000000015886565000000000000000000009669384100000000000000000000000015886420000000000000000000009647137800000000000000000000000015886286000000000000000000009624942600000000000000000000000015886162000000000000000000009602798400000000000000000000000015886049000000000000000000009580705300000000000000000000000015885945000000000000000000009558662900000000000000000000000015885853000000000000000000009536671300000000000000,
    15987979000000000000000000012777302000000000000000000000000015986391000000000000000000012747905000000000000000000000000015984816000000000000000000012718576000000000000000000000000015983255000000000000000000012689314000000000000000000000000015981709000000000000000000012660120000000000000000000000000015980175000000000000000000012630993000000000000000000000000015978656000000000000000000012601933000000000000000000000000015977150000000000000000000012572940000000000000000000000000015975658000000000000000000012544013000000000000000000000000015974180000000000000000000012515153000000000000000000000000015972715000000000000000000012486359000000000000000000000000015971263000000000000000000012457632000000000000000000000000015969825000000000000000000012428971000000000000000000000000015968401000000000000000000012400375000000000000000000000000015966990000000000000000000012371846000000000000000000000000015965592000000000000000000012343382000000000000000000000000015964207000000000000000000012314983000000000000000000000000015962836000000000000000000012286650000000000000000000000000015961478000000000000000000012258382000000000000000000000000015960133000000000000000000012230179000000000000000000000000015958802000000000000000000012202041000000000000000000000000015957483000000000000000000012173968000000000000000000000000015956178000000000000000000012145959000000000000000000000000015954886000000000000000000012118015000000000000000000000000015953607000000000000000000012090135000000000000000000000000015952340000000000000000000012062319000000000000000000000000015951087000000000000000000012034568000000000000000000000000015949847000000000000000000012006880000000000000000000000000015948619000000000000000000011979255000000000000000000000000015947404000000000000000000011951695000000000000000000000000015946203000000000000000000011924197000000000000000000000000015945014000000000000000000011896763000000000000000000000000015943837000000000000000000011869392000000000000000000000000015942674000000000000000000011842085000000000000000000000000015941523000000000000000000011814839000000000000000000000000015940384000000000000000000011787657000000000000000000000000015939259000000000000000000011760537000000000000000000000000015938145000000000000000000011733480000000000000000000000000015937045000000000000000000011706484000000000000000000000000015935957000000000000000000011679551000000000000000000000000015934881000000000000000000011652680000000000000000000000000015933818000000000000000000011625871000000000000000000000000015932767000000000000000000011599123000000000000000000000000015931729000000000000000000011572437000000000000000000000000015930703000000000000000000011545812000000000000000000000000015929689000000000000000000011519249000000000000000000000000015928688000000000000000000011492746000000000000000000000000015927698000000000000000000011466305000000000000000000000000015926721000000000000000000011439924000000000000000000000000015925757000000000000000000011413605000000000000000000000000015924804000000000000000000011387345000000000000000000000000015923863000000000000000000011361146000000000000000000000000015922935000000000000000000011335008000000000000000000000000015922019000000000000000000011308929000000000000000000000000015921114000000000000000000011282911000000000000000000000000015920222000000000000000000011256952000000000000000000000000015919342000000000000000000011231053000000000000000000000000015918473000000000000000000011205214000000000000000000000000015917617000000000000000000011179434000000000000000000000000015916772000000000000000000011153714000000000000000000000000015915939000000000000000000011128052000000000000000000000000015915119000000000000000000011102450000000000000000000000000015914309000000000000000000011076906000000000000000000000000015913512000000000000000000011051422000000000000000,
    16120557000000000000000000014806776000000000000000000000000016117984000000000000000000014772710000000000000000000000000016115428000000000000000000014738722000000000000000000000000016112890000000000000000000014704813000000000000000000000000016110368000000000000000000014670981000000000000000000000000016107863000000000000000000014637228000000000000000000000000016105374000000000000000000014603552000000000000000000000000016102903000000000000000000014569954000000000000000000000000016100448000000000000000000014536432000000000000000000000000016098009000000000000000000014502988000000000000000000000000016095588000000000000000000014469621000000000000000000000000016093182000000000000000000014436331000000000000000000000000016090794000000000000000000014403117000000000000000000000000016088421000000000000000000014369980000000000000000000000000016086065000000000000000000014336919000000000000000000000000016083725000000000000000000014303934000000000000000000000000016081402000000000000000000014271025000000000000000000000000016079095000000000000000000014238192000000000000000000000000016076803000000000000000000014205434000000000000000000000000016074528000000000000000000014172751000000000000000000000000016072269000000000000000000014140144000000000000000000000000016070026000000000000000000014107612000000000000000000000000016067799000000000000000000014075154000000000000000000000000016065587000000000000000000014042772000000000000000000000000016063392000000000000000000014010463000000000000000000000000016061212000000000000000000013978229000000000000000000000000016059048000000000000000000013946070000000000000000000000000016056900000000000000000000013913984000000000000000000000000016054767000000000000000000013881972000000000000000000000000016052650000000000000000000013850034000000000000000000000000016050548000000000000000000013818169000000000000000000000000016048462000000000000000000013786377000000000000000000000000016046391000000000000000000013754659000000000000000000000000016044335000000000000000000013723014000000000000000000000000016042295000000000000000000013691441000000000000000000000000016040270000000000000000000013659941000000000000000000000000016038261000000000000000000013628514000000000000000000000000016036266000000000000000000013597159000000000000000000000000016034287000000000000000000013565876000000000000000000000000016032323000000000000000000013534665000000000000000000000000016030373000000000000000000013503525000000000000000000000000016028439000000000000000000013472458000000000000000000000000016026520000000000000000000013441462000000000000000000000000016024615000000000000000000013410537000000000000000000000000016022725000000000000000000013379683000000000000000000000000016020851000000000000000000013348901000000000000000000000000016018991000000000000000000013318189000000000000000000000000016017145000000000000000000013287547000000000000000000000000016015314000000000000000000013256977000000000000000000000000016013498000000000000000000013226476000000000000000000000000016011697000000000000000000013196046000000000000000000000000016009910000000000000000000013165686000000000000000000000000016008137000000000000000000013135396000000000000000000000000016006379000000000000000000013105175000000000000000000000000016004635000000000000000000013075024000000000000000000000000016002906000000000000000000013044942000000000000000000000000016001190000000000000000000013014930000000000000000000000000015999490000000000000000000012984986000000000000000000000000015997803000000000000000000012955112000000000000000000000000015996130000000000000000000012925306000000000000000000000000015994472000000000000000000012895569000000000000000000000000015992828000000000000000000012865900000000000000000000000000015991198000000000000000000012836299000000000000000000000000015989581000000000000000000012806767000000000000000,
    16323433000000000000000000017158600000000000000000000000000016319640000000000000000000017119123000000000000000000000000016315868000000000000000000017079737000000000000000000000000016312117000000000000000000017040441000000000000000000000000016308387000000000000000000017001236000000000000000000000000016304678000000000000000000016962122000000000000000000000000016300990000000000000000000016923097000000000000000000000000016297323000000000000000000016884162000000000000000000000000016293677000000000000000000016845316000000000000000000000000016290052000000000000000000016806560000000000000000000000000016286447000000000000000000016767894000000000000000000000000016282863000000000000000000016729316000000000000000000000000016279299000000000000000000016690826000000000000000000000000016275756000000000000000000016652426000000000000000000000000016272233000000000000000000016614114000000000000000000000000016268731000000000000000000016575889000000000000000000000000016265249000000000000000000016537753000000000000000000000000016261787000000000000000000016499705000000000000000000000000016258345000000000000000000016461744000000000000000000000000016254923000000000000000000016423870000000000000000000000000016251521000000000000000000016386084000000000000000000000000016248138000000000000000000016348384000000000000000000000000016244776000000000000000000016310772000000000000000000000000016241433000000000000000000016273245000000000000000000000000016238110000000000000000000016235805000000000000000000000000016234807000000000000000000016198452000000000000000000000000016231523000000000000000000016161184000000000000000000000000016228259000000000000000000016124002000000000000000000000000016225014000000000000000000016086905000000000000000000000000016221788000000000000000000016049894000000000000000000000000016218582000000000000000000016012968000000000000000000000000016215394000000000000000000015976127000000000000000000000000016212226000000000000000000015939371000000000000000000000000016209077000000000000000000015902699000000000000000000000000016205947000000000000000000015866112000000000000000000000000016202836000000000000000000015829608000000000000000000000000016199744000000000000000000015793189000000000000000000000000016196670000000000000000000015756854000000000000000000000000016193616000000000000000000015720602000000000000000000000000016190579000000000000000000015684434000000000000000000000000016187562000000000000000000015648348000000000000000000000000016184563000000000000000000015612346000000000000000000000000016181582000000000000000000015576427000000000000000000000000016178620000000000000000000015540590000000000000000000000000016175677000000000000000000015504836000000000000000000000000016172751000000000000000000015469164000000000000000000000000016169844000000000000000000015433574000000000000000000000000016166955000000000000000000015398066000000000000000000000000016164084000000000000000000015362639000000000000000000000000016161231000000000000000000015327295000000000000000000000000016158396000000000000000000015292031000000000000000000000000016155578000000000000000000015256849000000000000000000000000016152779000000000000000000015221747000000000000000000000000016149998000000000000000000015186726000000000000000000000000016147234000000000000000000015151786000000000000000000000000016144488000000000000000000015116927000000000000000000000000016141759000000000000000000015082147000000000000000000000000016139048000000000000000000015047447000000000000000000000000016136355000000000000000000015012828000000000000000000000000016133678000000000000000000014978288000000000000000000000000016131020000000000000000000014943827000000000000000000000000016128378000000000000000000014909446000000000000000000000000016125754000000000000000000014875144000000000000000000000000016123147000000000000000000014840920000000000000000,
    16614189000000000000000000019883974000000000000000000000000016608861000000000000000000019838227000000000000000000000000016603559000000000000000000019792585000000000000000000000000016598284000000000000000000019747048000000000000000000000000016593036000000000000000000019701616000000000000000000000000016587814000000000000000000019656288000000000000000000000000016582619000000000000000000019611065000000000000000000000000016577450000000000000000000019565946000000000000000000000000016572307000000000000000000019520930000000000000000000000000016567191000000000000000000019476019000000000000000000000000016562101000000000000000000019431210000000000000000000000000016557037000000000000000000019386505000000000000000000000000016551998000000000000000000019341902000000000000000000000000016546986000000000000000000019297402000000000000000000000000016541999000000000000000000019253005000000000000000000000000016537038000000000000000000019208709000000000000000000000000016532102000000000000000000019164516000000000000000000000000016527191000000000000000000019120424000000000000000000000000016522307000000000000000000019076433000000000000000000000000016517447000000000000000000019032544000000000000000000000000016512612000000000000000000018988756000000000000000000000000016507803000000000000000000018945068000000000000000000000000016503018000000000000000000018901482000000000000000000000000016498258000000000000000000018857995000000000000000000000000016493523000000000000000000018814608000000000000000000000000016488813000000000000000000018771321000000000000000000000000016484127000000000000000000018728134000000000000000000000000016479466000000000000000000018685046000000000000000000000000016474829000000000000000000018642058000000000000000000000000016470217000000000000000000018599168000000000000000000000000016465628000000000000000000018556377000000000000000000000000016461064000000000000000000018513684000000000000000000000000016456524000000000000000000018471089000000000000000000000000016452008000000000000000000018428593000000000000000000000000016447516000000000000000000018386194000000000000000000000000016443047000000000000000000018343893000000000000000000000000016438603000000000000000000018301689000000000000000000000000016434182000000000000000000018259583000000000000000000000000016429784000000000000000000018217573000000000000000000000000016425410000000000000000000018175659000000000000000000000000016421059000000000000000000018133843000000000000000000000000016416732000000000000000000018092122000000000000000000000000016412427000000000000000000018050498000000000000000000000000016408146000000000000000000018008969000000000000000000000000016403888000000000000000000017967535000000000000000000000000016399653000000000000000000017926198000000000000000000000000016395440000000000000000000017884955000000000000000000000000016391251000000000000000000017843807000000000000000000000000016387084000000000000000000017802753000000000000000000000000016382940000000000000000000017761795000000000000000000000000016378818000000000000000000017720930000000000000000000000000016374718000000000000000000017680159000000000000000000000000016370641000000000000000000017639483000000000000000000000000016366587000000000000000000017598899000000000000000000000000016362554000000000000000000017558410000000000000000000000000016358544000000000000000000017518013000000000000000000000000016354556000000000000000000017477709000000000000000000000000016350589000000000000000000017437498000000000000000000000000016346645000000000000000000017397380000000000000000000000000016342722000000000000000000017357354000000000000000000000000016338821000000000000000000017317419000000000000000000000000016334942000000000000000000017277577000000000000000000000000016331084000000000000000000017237827000000000000000000000000016327248000000000000000000017198168000000000000000,
    17018352000000000000000000023042231000000000000000000000000017010740000000000000000000022989217000000000000000000000000017003222000000000000000000022936326000000000000000000000000016995785000000000000000000022883556000000000000000000000000016988418000000000000000000022830908000000000000000000000000016981115000000000000000000022778381000000000000000000000000016973869000000000000000000022725975000000000000000000000000016966677000000000000000000022673689000000000000000000000000016959535000000000000000000022621524000000000000000000000000016952440000000000000000000022569478000000000000000000000000016945389000000000000000000022517553000000000000000000000000016938382000000000000000000022465747000000000000000000000000016931415000000000000000000022414060000000000000000000000000016924489000000000000000000022362491000000000000000000000000016917601000000000000000000022311042000000000000000000000000016910751000000000000000000022259711000000000000000000000000016903938000000000000000000022208498000000000000000000000000016897161000000000000000000022157403000000000000000000000000016890420000000000000000000022106425000000000000000000000000016883715000000000000000000022055565000000000000000000000000016877043000000000000000000022004822000000000000000000000000016870407000000000000000000021954195000000000000000000000000016863804000000000000000000021903685000000000000000000000000016857234000000000000000000021853291000000000000000000000000016850697000000000000000000021803013000000000000000000000000016844194000000000000000000021752851000000000000000000000000016837723000000000000000000021702804000000000000000000000000016831284000000000000000000021652873000000000000000000000000016824877000000000000000000021603056000000000000000000000000016818502000000000000000000021553354000000000000000000000000016812159000000000000000000021503766000000000000000000000000016805847000000000000000000021454292000000000000000000000000016799567000000000000000000021404932000000000000000000000000016793317000000000000000000021355686000000000000000000000000016787098000000000000000000021306553000000000000000000000000016780910000000000000000000021257533000000000000000000000000016774753000000000000000000021208625000000000000000000000000016768626000000000000000000021159831000000000000000000000000016762529000000000000000000021111148000000000000000000000000016756462000000000000000000021062578000000000000000000000000016750425000000000000000000021014119000000000000000000000000016744418000000000000000000020965772000000000000000000000000016738441000000000000000000020917536000000000000000000000000016732493000000000000000000020869411000000000000000000000000016726574000000000000000000020821396000000000000000000000000016720685000000000000000000020773492000000000000000000000000016714825000000000000000000020725699000000000000000000000000016708994000000000000000000020678015000000000000000000000000016703192000000000000000000020630441000000000000000000000000016697418000000000000000000020582977000000000000000000000000016691673000000000000000000020535621000000000000000000000000016685957000000000000000000020488375000000000000000000000000016680269000000000000000000020441237000000000000000000000000016674609000000000000000000020394208000000000000000000000000016668978000000000000000000020347287000000000000000000000000016663375000000000000000000020300474000000000000000000000000016657799000000000000000000020253769000000000000000000000000016652252000000000000000000020207171000000000000000000000000016646732000000000000000000020160680000000000000000000000000016641240000000000000000000020114297000000000000000000000000016635775000000000000000000020068020000000000000000000000000016630338000000000000000000020021849000000000000000000000000016624928000000000000000000019975785000000000000000000000000016619545000000000000000000019929826000000000000000,
    17556001000000000000000000026702127000000000000000000000000017546320000000000000000000026640694000000000000000000000000017536682000000000000000000026579401000000000000000000000000017527086000000000000000000026518250000000000000000000000000017517534000000000000000000026457240000000000000000000000000017508024000000000000000000026396369000000000000000000000000017498556000000000000000000026335639000000000000000000000000017489132000000000000000000026275049000000000000000000000000017479749000000000000000000026214598000000000000000000000000017470409000000000000000000026154286000000000000000000000000017461111000000000000000000026094112000000000000000000000000017451856000000000000000000026034078000000000000000000000000017442643000000000000000000025974181000000000000000000000000017433473000000000000000000025914422000000000000000000000000017424345000000000000000000025854801000000000000000000000000017415259000000000000000000025795317000000000000000000000000017406216000000000000000000025735969000000000000000000000000017397216000000000000000000025676758000000000000000000000000017388259000000000000000000025617684000000000000000000000000017379346000000000000000000025558745000000000000000000000000017370476000000000000000000025499942000000000000000000000000017361650000000000000000000025441274000000000000000000000000017352869000000000000000000025382742000000000000000000000000017344133000000000000000000025324343000000000000000000000000017335443000000000000000000025266080000000000000000000000000017326801000000000000000000025207950000000000000000000000000017318207000000000000000000025149954000000000000000000000000017309664000000000000000000025092091000000000000000000000000017301173000000000000000000025034362000000000000000000000000017292738000000000000000000024976765000000000000000000000000017284361000000000000000000024919301000000000000000000000000017276047000000000000000000024861969000000000000000000000000017267803000000000000000000024804769000000000000000000000000017259636000000000000000000024747701000000000000000000000000017251557000000000000000000024690764000000000000000000000000017243580000000000000000000024633958000000000000000000000000017235727000000000000000000024577282000000000000000000000000017228027000000000000000000024520737000000000000000000000000017220524000000000000000000024464322000000000000000000000000017213283000000000000000000024408037000000000000000000000000017206410000000000000000000024351882000000000000000000000000017200078000000000000000000024295855000000000000000000000000017194591000000000000000000024239958000000000000000000000000017190519000000000000000000024184189000000000000000000000000017189040000000000000000000024128548000000000000000000000000017192911000000000000000000024073036000000000000000000000000017209909000000000000000000024017651000000000000000000000000017269605000000000000000000023962393000000000000000000000000017575815000000000000000000023907263000000000000000000000000034745075000000000000000000023852259000000000000000000000000017929473000000000000000000023797382000000000000000000000000017288492000000000000000000023742632000000000000000000000000017180030000000000000000000023688007000000000000000000000000017138892000000000000000000023633508000000000000000000000000017116153000000000000000000023579134000000000000000000000000017100463000000000000000000023524886000000000000000000000000017088058000000000000000000023470762000000000000000000000000017077401000000000000000000023416763000000000000000000000000017067766000000000000000000023362888000000000000000000000000017058776000000000000000000023309137000000000000000000000000017050218000000000000000000023255509000000000000000000000000017041963000000000000000000023202005000000000000000000000000017033933000000000000000000023148624000000000000000000000000017026074000000000000000000023095366000000000000000,
    18271081000000000000000000030943341000000000000000000000000018258358000000000000000000030872150000000000000000000000000018245687000000000000000000030801122000000000000000000000000018233068000000000000000000030730258000000000000000000000000018220502000000000000000000030659557000000000000000000000000018207988000000000000000000030589018000000000000000000000000018195526000000000000000000030518642000000000000000000000000018183116000000000000000000030448428000000000000000000000000018170758000000000000000000030378375000000000000000000000000018158451000000000000000000030308483000000000000000000000000018146195000000000000000000030238752000000000000000000000000018133990000000000000000000030169182000000000000000000000000018121836000000000000000000030099772000000000000000000000000018109733000000000000000000030030521000000000000000000000000018097680000000000000000000029961430000000000000000000000000018085678000000000000000000029892498000000000000000000000000018073726000000000000000000029823724000000000000000000000000018061825000000000000000000029755108000000000000000000000000018049973000000000000000000029686651000000000000000000000000018038171000000000000000000029618350000000000000000000000000018026418000000000000000000029550207000000000000000000000000018014715000000000000000000029482221000000000000000000000000018003061000000000000000000029414391000000000000000000000000017991457000000000000000000029346718000000000000000000000000017979901000000000000000000029279200000000000000000000000000017968394000000000000000000029211837000000000000000000000000017956935000000000000000000029144629000000000000000000000000017945525000000000000000000029077576000000000000000000000000017934164000000000000000000029010677000000000000000000000000017922850000000000000000000028943932000000000000000000000000017911584000000000000000000028877341000000000000000000000000017900367000000000000000000028810903000000000000000000000000017889197000000000000000000028744617000000000000000000000000017878074000000000000000000028678485000000000000000000000000017866999000000000000000000028612504000000000000000000000000017855970000000000000000000028546675000000000000000000000000017844989000000000000000000028480998000000000000000000000000017834055000000000000000000028415471000000000000000000000000017823167000000000000000000028350096000000000000000000000000017812326000000000000000000028284871000000000000000000000000017801532000000000000000000028219796000000000000000000000000017790783000000000000000000028154870000000000000000000000000017780081000000000000000000028090094000000000000000000000000017769425000000000000000000028025467000000000000000000000000017758814000000000000000000027960989000000000000000000000000017748249000000000000000000027896659000000000000000000000000017737730000000000000000000027832477000000000000000000000000017727256000000000000000000027768443000000000000000000000000017716827000000000000000000027704556000000000000000000000000017706443000000000000000000027640816000000000000000000000000017696105000000000000000000027577223000000000000000000000000017685811000000000000000000027513776000000000000000000000000017675561000000000000000000027450475000000000000000000000000017665356000000000000000000027387320000000000000000000000000017655196000000000000000000027324310000000000000000000000000017645079000000000000000000027261444000000000000000000000000017635007000000000000000000027198724000000000000000000000000017624979000000000000000000027136148000000000000000000000000017614994000000000000000000027073716000000000000000000000000017605054000000000000000000027011427000000000000000000000000017595156000000000000000000026949282000000000000000000000000017585303000000000000000000026887280000000000000000000000000017575492000000000000000000026825420000000000000000000000000017565725000000000000000000026763703000000000000000,
    19203151000000000000000000035858205000000000000000000000000019186678000000000000000000035775706000000000000000000000000019170269000000000000000000035693397000000000000000000000000019153924000000000000000000035611277000000000000000000000000019137644000000000000000000035529346000000000000000000000000019121428000000000000000000035447603000000000000000000000000019105276000000000000000000035366049000000000000000000000000019089187000000000000000000035284682000000000000000000000000019073162000000000000000000035203503000000000000000000000000019057200000000000000000000035122510000000000000000000000000019041301000000000000000000035041703000000000000000000000000019025465000000000000000000034961083000000000000000000000000019009692000000000000000000034880648000000000000000000000000018993981000000000000000000034800398000000000000000000000000018978333000000000000000000034720333000000000000000000000000018962746000000000000000000034640451000000000000000000000000018947221000000000000000000034560754000000000000000000000000018931759000000000000000000034481240000000000000000000000000018916357000000000000000000034401909000000000000000000000000018901017000000000000000000034322760000000000000000000000000018885738000000000000000000034243794000000000000000000000000018870520000000000000000000034165009000000000000000000000000018855363000000000000000000034086406000000000000000000000000018840266000000000000000000034007983000000000000000000000000018825229000000000000000000033929741000000000000000000000000018810253000000000000000000033851679000000000000000000000000018795336000000000000000000033773796000000000000000000000000018780480000000000000000000033696092000000000000000000000000018765683000000000000000000033618568000000000000000000000000018750945000000000000000000033541221000000000000000000000000018736266000000000000000000033464053000000000000000000000000018721647000000000000000000033387062000000000000000000000000018707086000000000000000000033310249000000000000000000000000018692584000000000000000000033233612000000000000000000000000018678140000000000000000000033157151000000000000000000000000018663754000000000000000000033080866000000000000000000000000018649427000000000000000000033004757000000000000000000000000018635157000000000000000000032928823000000000000000000000000018620946000000000000000000032853063000000000000000000000000018606791000000000000000000032777478000000000000000000000000018592694000000000000000000032702067000000000000000000000000018578654000000000000000000032626829000000000000000000000000018564671000000000000000000032551765000000000000000000000000018550745000000000000000000032476873000000000000000000000000018536875000000000000000000032402153000000000000000000000000018523062000000000000000000032327606000000000000000000000000018509304000000000000000000032253229000000000000000000000000018495603000000000000000000032179024000000000000000000000000018481958000000000000000000032104990000000000000000000000000018468368000000000000000000032031126000000000000000000000000018454834000000000000000000031957432000000000000000000000000018441356000000000000000000031883907000000000000000000000000018427932000000000000000000031810552000000000000000000000000018414563000000000000000000031737365000000000000000000000000018401249000000000000000000031664347000000000000000000000000018387989000000000000000000031591497000000000000000000000000018374784000000000000000000031518814000000000000000000000000018361634000000000000000000031446299000000000000000000000000018348537000000000000000000031373950000000000000000000000000018335494000000000000000000031301768000000000000000000000000018322505000000000000000000031229752000000000000000000000000018309569000000000000000000031157902000000000000000000000000018296686000000000000000000031086217000000000000000000000000018283857000000000000000000031014697000000000000000,
    20401551000000000000000000041553718000000000000000000000000020380498000000000000000000041458115000000000000000000000000020359524000000000000000000041362732000000000000000000000000020338628000000000000000000041267569000000000000000000000000020317810000000000000000000041172624000000000000000000000000020297070000000000000000000041077898000000000000000000000000020276408000000000000000000040983390000000000000000000000000020255823000000000000000000040889100000000000000000000000000020235315000000000000000000040795026000000000000000000000000020214884000000000000000000040701169000000000000000000000000020194530000000000000000000040607528000000000000000000000000020174252000000000000000000040514102000000000000000000000000020154050000000000000000000040420891000000000000000000000000020133925000000000000000000040327895000000000000000000000000020113875000000000000000000040235112000000000000000000000000020093901000000000000000000040142543000000000000000000000000020074002000000000000000000040050187000000000000000000000000020054178000000000000000000039958044000000000000000000000000020034429000000000000000000039866112000000000000000000000000020014755000000000000000000039774392000000000000000000000000019995155000000000000000000039682883000000000000000000000000019975629000000000000000000039591584000000000000000000000000019956178000000000000000000039500496000000000000000000000000019936800000000000000000000039409617000000000000000000000000019917495000000000000000000039318947000000000000000000000000019898265000000000000000000039228486000000000000000000000000019879107000000000000000000039138233000000000000000000000000019860022000000000000000000039048188000000000000000000000000019841009000000000000000000038958349000000000000000000000000019822070000000000000000000038868718000000000000000000000000019803202000000000000000000038779292000000000000000000000000019784406000000000000000000038690073000000000000000000000000019765683000000000000000000038601059000000000000000000000000019747030000000000000000000038512249000000000000000000000000019728449000000000000000000038423644000000000000000000000000019709940000000000000000000038335242000000000000000000000000019691501000000000000000000038247044000000000000000000000000019673133000000000000000000038159049000000000000000000000000019654835000000000000000000038071257000000000000000000000000019636608000000000000000000037983666000000000000000000000000019618451000000000000000000037896277000000000000000000000000019600363000000000000000000037809089000000000000000000000000019582346000000000000000000037722102000000000000000000000000019564397000000000000000000037635314000000000000000000000000019546518000000000000000000037548727000000000000000000000000019528708000000000000000000037462338000000000000000000000000019510967000000000000000000037376148000000000000000000000000019493294000000000000000000037290157000000000000000000000000019475690000000000000000000037204364000000000000000000000000019458154000000000000000000037118767000000000000000000000000019440686000000000000000000037033368000000000000000000000000019423286000000000000000000036948165000000000000000000000000019405953000000000000000000036863159000000000000000000000000019388687000000000000000000036778347000000000000000000000000019371489000000000000000000036693731000000000000000000000000019354357000000000000000000036609310000000000000000000000000019337292000000000000000000036525083000000000000000000000000019320294000000000000000000036441050000000000000000000000000019303362000000000000000000036357210000000000000000000000000019286496000000000000000000036273563000000000000000000000000019269696000000000000000000036190108000000000000000000000000019252962000000000000000000036106845000000000000000000000000019236293000000000000000000036023774000000000000000000000000019219690000000000000000000035940894000000000000000,
    21924005000000000000000000048153873000000000000000000000000021898062000000000000000000048043085000000000000000000000000021873264000000000000000000047932553000000000000000000000000021854329000000000000000000047822274000000000000000000000000022140873000000000000000000047712249000000000000000000000000021817957000000000000000000047602478000000000000000000000000021770253000000000000000000047492958000000000000000000000000021741199000000000000000000047383691000000000000000000000000021714301000000000000000000047274676000000000000000000000000021688038000000000000000000047165911000000000000000000000000021662069000000000000000000047057396000000000000000000000000021636285000000000000000000046949131000000000000000000000000021610641000000000000000000046841115000000000000000000000000021585117000000000000000000046733347000000000000000000000000021559700000000000000000000046625828000000000000000000000000021534386000000000000000000046518556000000000000000000000000021509170000000000000000000046411530000000000000000000000000021484050000000000000000000046304751000000000000000000000000021459023000000000000000000046198218000000000000000000000000021434089000000000000000000046091930000000000000000000000000021409247000000000000000000045985886000000000000000000000000021384496000000000000000000045880086000000000000000000000000021359836000000000000000000045774529000000000000000000000000021335265000000000000000000045669216000000000000000000000000021310784000000000000000000045564145000000000000000000000000021286392000000000000000000045459315000000000000000000000000021262089000000000000000000045354727000000000000000000000000021237874000000000000000000045250379000000000000000000000000021213747000000000000000000045146271000000000000000000000000021189708000000000000000000045042403000000000000000000000000021165756000000000000000000044938774000000000000000000000000021141891000000000000000000044835383000000000000000000000000021118113000000000000000000044732231000000000000000000000000021094422000000000000000000044629315000000000000000000000000021070817000000000000000000044526636000000000000000000000000021047298000000000000000000044424194000000000000000000000000021023865000000000000000000044321987000000000000000000000000021000517000000000000000000044220015000000000000000000000000020977255000000000000000000044118278000000000000000000000000020954077000000000000000000044016775000000000000000000000000020930985000000000000000000043915506000000000000000000000000020907977000000000000000000043814469000000000000000000000000020885053000000000000000000043713665000000000000000000000000020862213000000000000000000043613093000000000000000000000000020839457000000000000000000043512752000000000000000000000000020816784000000000000000000043412642000000000000000000000000020794195000000000000000000043312763000000000000000000000000020771688000000000000000000043213113000000000000000000000000020749265000000000000000000043113692000000000000000000000000020726924000000000000000000043014501000000000000000000000000020704665000000000000000000042915537000000000000000000000000020682488000000000000000000042816801000000000000000000000000020660394000000000000000000042718293000000000000000000000000020638380000000000000000000042620010000000000000000000000000020616448000000000000000000042521955000000000000000000000000020594598000000000000000000042424124000000000000000000000000020572828000000000000000000042326519000000000000000000000000020551138000000000000000000042229138000000000000000000000000020529529000000000000000000042131982000000000000000000000000020508001000000000000000000042035048000000000000000000000000020486552000000000000000000041938338000000000000000000000000020465183000000000000000000041841851000000000000000000000000020443893000000000000000000041745585000000000000000000000000020422682000000000000000000041649541000000000000000,
    23832743000000000000000000055802360000000000000000000000000023799559000000000000000000055673975000000000000000000000000023766487000000000000000000055545886000000000000000000000000023733527000000000000000000055418091000000000000000000000000023700679000000000000000000055290591000000000000000000000000023667942000000000000000000055163384000000000000000000000000023635316000000000000000000055036469000000000000000000000000023602801000000000000000000054909847000000000000000000000000023570396000000000000000000054783515000000000000000000000000023538102000000000000000000054657475000000000000000000000000023505917000000000000000000054531724000000000000000000000000023473842000000000000000000054406263000000000000000000000000023441876000000000000000000054281090000000000000000000000000023410019000000000000000000054156206000000000000000000000000023378271000000000000000000054031609000000000000000000000000023346631000000000000000000053907298000000000000000000000000023315100000000000000000000053783273000000000000000000000000023283676000000000000000000053659534000000000000000000000000023252360000000000000000000053536079000000000000000000000000023221151000000000000000000053412909000000000000000000000000023190049000000000000000000053290022000000000000000000000000023159053000000000000000000053167417000000000000000000000000023128164000000000000000000053045095000000000000000000000000023097381000000000000000000052923054000000000000000000000000023066704000000000000000000052801294000000000000000000000000023036133000000000000000000052679814000000000000000000000000023005667000000000000000000052558613000000000000000000000000022975305000000000000000000052437691000000000000000000000000022945049000000000000000000052317048000000000000000000000000022914896000000000000000000052196682000000000000000000000000022884848000000000000000000052076593000000000000000000000000022854904000000000000000000051956780000000000000000000000000022825063000000000000000000051837243000000000000000000000000022795326000000000000000000051717981000000000000000000000000022765691000000000000000000051598993000000000000000000000000022736160000000000000000000051480279000000000000000000000000022706731000000000000000000051361839000000000000000000000000022677404000000000000000000051243670000000000000000000000000022648179000000000000000000051125774000000000000000000000000022619055000000000000000000051008149000000000000000000000000022590033000000000000000000050890794000000000000000000000000022561112000000000000000000050773710000000000000000000000000022532292000000000000000000050656894000000000000000000000000022503573000000000000000000050540348000000000000000000000000022474954000000000000000000050424070000000000000000000000000022446436000000000000000000050308059000000000000000000000000022418017000000000000000000050192315000000000000000000000000022389698000000000000000000050076837000000000000000000000000022361479000000000000000000049961626000000000000000000000000022333358000000000000000000049846679000000000000000000000000022305338000000000000000000049731996000000000000000000000000022277416000000000000000000049617578000000000000000000000000022249593000000000000000000049503423000000000000000000000000022221869000000000000000000049389530000000000000000000000000022194245000000000000000000049275899000000000000000000000000022166720000000000000000000049162530000000000000000000000000022139295000000000000000000049049422000000000000000000000000022111971000000000000000000048936574000000000000000000000000022084749000000000000000000048823985000000000000000000000000022057632000000000000000000048711656000000000000000000000000022030624000000000000000000048599585000000000000000000000000022003733000000000000000000048487772000000000000000000000000021976973000000000000000000048376216000000000000000000000000021950374000000000000000000048264916000000000000000,
    26204270000000000000000000064665688000000000000000000000000026163245000000000000000000064516912000000000000000000000000026122354000000000000000000064368478000000000000000000000000026081594000000000000000000064220385000000000000000000000000026040968000000000000000000064072633000000000000000000000000026000473000000000000000000063925221000000000000000000000000025960109000000000000000000063778148000000000000000000000000025919877000000000000000000063631414000000000000000000000000025879776000000000000000000063485017000000000000000000000000025839806000000000000000000063338957000000000000000000000000025799965000000000000000000063193232000000000000000000000000025760255000000000000000000063047844000000000000000000000000025720674000000000000000000062902789000000000000000000000000025681222000000000000000000062758069000000000000000000000000025641899000000000000000000062613681000000000000000000000000025602704000000000000000000062469626000000000000000000000000025563638000000000000000000062325902000000000000000000000000025524699000000000000000000062182508000000000000000000000000025485888000000000000000000062039445000000000000000000000000025447204000000000000000000061896711000000000000000000000000025408647000000000000000000061754305000000000000000000000000025370217000000000000000000061612226000000000000000000000000025331912000000000000000000061470475000000000000000000000000025293734000000000000000000061329050000000000000000000000000025255681000000000000000000061187950000000000000000000000000025217753000000000000000000061047175000000000000000000000000025179949000000000000000000060906723000000000000000000000000025142271000000000000000000060766595000000000000000000000000025104716000000000000000000060626789000000000000000000000000025067286000000000000000000060487305000000000000000000000000025029978000000000000000000060348142000000000000000000000000024992795000000000000000000060209299000000000000000000000000024955733000000000000000000060070775000000000000000000000000024918795000000000000000000059932570000000000000000000000000024881979000000000000000000059794683000000000000000000000000024845284000000000000000000059657113000000000000000000000000024808711000000000000000000059519860000000000000000000000000024772260000000000000000000059382923000000000000000000000000024735929000000000000000000059246300000000000000000000000000024699719000000000000000000059109992000000000000000000000000024663629000000000000000000058973998000000000000000000000000024627659000000000000000000058838316000000000000000000000000024591809000000000000000000058702947000000000000000000000000024556078000000000000000000058567889000000000000000000000000024520466000000000000000000058433141000000000000000000000000024484973000000000000000000058298704000000000000000000000000024449598000000000000000000058164576000000000000000000000000024414342000000000000000000058030757000000000000000000000000024379203000000000000000000057897245000000000000000000000000024344181000000000000000000057764041000000000000000000000000024309277000000000000000000057631143000000000000000000000000024274490000000000000000000057498551000000000000000000000000024239819000000000000000000057366264000000000000000000000000024205264000000000000000000057234281000000000000000000000000024170825000000000000000000057102602000000000000000000000000024136502000000000000000000056971226000000000000000000000000024102294000000000000000000056840152000000000000000000000000024068201000000000000000000056709380000000000000000000000000024034222000000000000000000056578909000000000000000000000000024000358000000000000000000056448737000000000000000000000000023966608000000000000000000056318866000000000000000000000000023932972000000000000000000056189293000000000000000000000000023899449000000000000000000056060018000000000000000000000000023866040000000000000000000055931040000000000000000,
    29123200000000000000000000074936818000000000000000000000000029072892000000000000000000074764410000000000000000000000000029022742000000000000000000074592400000000000000000000000000028972749000000000000000000074420785000000000000000000000000028922912000000000000000000074249565000000000000000000000000028873232000000000000000000074078739000000000000000000000000028823708000000000000000000073908306000000000000000000000000028774340000000000000000000073738265000000000000000000000000028725127000000000000000000073568615000000000000000000000000028676069000000000000000000073399355000000000000000000000000028627166000000000000000000073230485000000000000000000000000028578418000000000000000000073062004000000000000000000000000028529824000000000000000000072893910000000000000000000000000028481386000000000000000000072726203000000000000000000000000028433105000000000000000000072558881000000000000000000000000028384984000000000000000000072391945000000000000000000000000028337031000000000000000000072225393000000000000000000000000028289268000000000000000000072059223000000000000000000000000028241783000000000000000000071893437000000000000000000000000028195163000000000000000000071728031000000000000000000000000028197817000000000000000000071563006000000000000000000000000028102095000000000000000000071398361000000000000000000000000028052734000000000000000000071234095000000000000000000000000028005461000000000000000000071070206000000000000000000000000027958562000000000000000000070906695000000000000000000000000027911872000000000000000000070743560000000000000000000000000027865352000000000000000000070580800000000000000000000000000027818990000000000000000000070418415000000000000000000000000027772781000000000000000000070256403000000000000000000000000027726721000000000000000000070094764000000000000000000000000027680809000000000000000000069933497000000000000000000000000027635045000000000000000000069772600000000000000000000000000027589427000000000000000000069612074000000000000000000000000027543954000000000000000000069451918000000000000000000000000027498627000000000000000000069292130000000000000000000000000027453444000000000000000000069132709000000000000000000000000027408406000000000000000000068973655000000000000000000000000027363511000000000000000000068814967000000000000000000000000027318760000000000000000000068656645000000000000000000000000027274151000000000000000000068498686000000000000000000000000027229685000000000000000000068341091000000000000000000000000027185361000000000000000000068183859000000000000000000000000027141179000000000000000000068026988000000000000000000000000027097138000000000000000000067870478000000000000000000000000027053238000000000000000000067714328000000000000000000000000027009479000000000000000000067558538000000000000000000000000026965859000000000000000000067403106000000000000000000000000026922380000000000000000000067248031000000000000000000000000026879040000000000000000000067093314000000000000000000000000026835839000000000000000000066938952000000000000000000000000026792777000000000000000000066784945000000000000000000000000026749853000000000000000000066631293000000000000000000000000026707068000000000000000000066477994000000000000000000000000026664420000000000000000000066325048000000000000000000000000026621909000000000000000000066172454000000000000000000000000026579535000000000000000000066020211000000000000000000000000026537297000000000000000000065868318000000000000000000000000026495196000000000000000000065716775000000000000000000000000026453231000000000000000000065565580000000000000000000000000026411401000000000000000000065414733000000000000000000000000026369706000000000000000000065264233000000000000000000000000026328146000000000000000000065114080000000000000000000000000026286720000000000000000000064964271000000000000000000000000026245428000000000000000000064814808000000000000000,
    32690874000000000000000000086839354000000000000000000000000032629545000000000000000000086639563000000000000000000000000032568403000000000000000000086440231000000000000000000000000032507448000000000000000000086241358000000000000000000000000032446679000000000000000000086042942000000000000000000000000032386097000000000000000000085844983000000000000000000000000032325700000000000000000000085647479000000000000000000000000032265488000000000000000000085450430000000000000000000000000032205460000000000000000000085253834000000000000000000000000032145616000000000000000000085057690000000000000000000000000032085956000000000000000000084861998000000000000000000000000032026479000000000000000000084666756000000000000000000000000031967183000000000000000000084471963000000000000000000000000031908070000000000000000000084277618000000000000000000000000031849138000000000000000000084083720000000000000000000000000031790387000000000000000000083890269000000000000000000000000031731817000000000000000000083697262000000000000000000000000031673426000000000000000000083504700000000000000000000000000031615215000000000000000000083312580000000000000000000000000031557182000000000000000000083120903000000000000000000000000031499328000000000000000000082929666000000000000000000000000031441652000000000000000000082738870000000000000000000000000031384154000000000000000000082548512000000000000000000000000031326832000000000000000000082358593000000000000000000000000031269686000000000000000000082169110000000000000000000000000031212717000000000000000000081980064000000000000000000000000031155923000000000000000000081791452000000000000000000000000031099304000000000000000000081603274000000000000000000000000031042860000000000000000000081415529000000000000000000000000030986590000000000000000000081228216000000000000000000000000030930493000000000000000000081041334000000000000000000000000030874569000000000000000000080854882000000000000000000000000030818818000000000000000000080668859000000000000000000000000030763240000000000000000000080483264000000000000000000000000030707832000000000000000000080298096000000000000000000000000030652597000000000000000000080113354000000000000000000000000030597531000000000000000000079929037000000000000000000000000030542637000000000000000000079745144000000000000000000000000030487912000000000000000000079561675000000000000000000000000030433356000000000000000000079378627000000000000000000000000030378969000000000000000000079196000000000000000000000000000030324751000000000000000000079013794000000000000000000000000030270701000000000000000000078832007000000000000000000000000030216818000000000000000000078650638000000000000000000000000030163103000000000000000000078469686000000000000000000000000030109554000000000000000000078289151000000000000000000000000030056171000000000000000000078109031000000000000000000000000030002954000000000000000000077929325000000000000000000000000029949902000000000000000000077750033000000000000000000000000029897016000000000000000000077571153000000000000000000000000029844293000000000000000000077392685000000000000000000000000029791735000000000000000000077214628000000000000000000000000029739340000000000000000000077036980000000000000000000000000029687108000000000000000000076859741000000000000000000000000029635039000000000000000000076682909000000000000000000000000029583132000000000000000000076506485000000000000000000000000029531387000000000000000000076330466000000000000000000000000029479804000000000000000000076154852000000000000000000000000029428381000000000000000000075979643000000000000000000000000029377119000000000000000000075804836000000000000000000000000029326017000000000000000000075630432000000000000000000000000029275074000000000000000000075456429000000000000000000000000029224291000000000000000000075282826000000000000000000000000029173666000000000000000000075109623000000000000000,
    37031605000000000000000000100632420000000000000000000000000036957085000000000000000000100400900000000000000000000000000036882791000000000000000000100169900000000000000000000000000036808722000000000000000000099939443000000000000000000000000036734878000000000000000000099709513000000000000000000000000036661257000000000000000000099480111000000000000000000000000036587859000000000000000000099251237000000000000000000000000036514683000000000000000000099022889000000000000000000000000036441730000000000000000000098795067000000000000000000000000036368997000000000000000000098567769000000000000000000000000036296485000000000000000000098340994000000000000000000000000036224193000000000000000000098114740000000000000000000000000036152120000000000000000000097889008000000000000000000000000036080265000000000000000000097663794000000000000000000000000036008629000000000000000000097439099000000000000000000000000035937210000000000000000000097214920000000000000000000000000035866007000000000000000000096991258000000000000000000000000035795022000000000000000000096768110000000000000000000000000035724254000000000000000000096545475000000000000000000000000035653703000000000000000000096323353000000000000000000000000035583374000000000000000000096101742000000000000000000000000035513282000000000000000000095880640000000000000000000000000035443529000000000000000000095660047000000000000000000000000035378303000000000000000000095439962000000000000000000000000035304906000000000000000000095220383000000000000000000000000035234946000000000000000000095001309000000000000000000000000035165787000000000000000000094782740000000000000000000000000035096897000000000000000000094564673000000000000000000000000035028231000000000000000000094347108000000000000000000000000034959778000000000000000000094130043000000000000000000000000034891536000000000000000000093913478000000000000000000000000034823502000000000000000000093697411000000000000000000000000034755675000000000000000000093481841000000000000000000000000034688055000000000000000000093266767000000000000000000000000034620641000000000000000000093052188000000000000000000000000034553431000000000000000000092838103000000000000000000000000034486426000000000000000000092624510000000000000000000000000034419625000000000000000000092411408000000000000000000000000034353027000000000000000000092198797000000000000000000000000034286631000000000000000000091986675000000000000000000000000034220437000000000000000000091775041000000000000000000000000034154444000000000000000000091563894000000000000000000000000034088652000000000000000000091353233000000000000000000000000034023061000000000000000000091143057000000000000000000000000033957669000000000000000000090933364000000000000000000000000033892475000000000000000000090724153000000000000000000000000033827481000000000000000000090515424000000000000000000000000033762684000000000000000000090307175000000000000000000000000033698084000000000000000000090099405000000000000000000000000033633682000000000000000000089892113000000000000000000000000033569475000000000000000000089685298000000000000000000000000033505464000000000000000000089478959000000000000000000000000033441648000000000000000000089273094000000000000000000000000033378027000000000000000000089067703000000000000000000000000033314599000000000000000000088862785000000000000000000000000033251365000000000000000000088658338000000000000000000000000033188324000000000000000000088454362000000000000000000000000033125476000000000000000000088250855000000000000000000000000033062819000000000000000000088047816000000000000000000000000033000353000000000000000000087845244000000000000000000000000032938078000000000000000000087643138000000000000000000000000032875993000000000000000000087441498000000000000000000000000032814098000000000000000000087240321000000000000000000000000032752392000000000000000000087039607000000000000000,
    42304061000000000000000000116616300000000000000000000000000042213524000000000000000000116348000000000000000000000000000042123264000000000000000000116080320000000000000000000000000042033280000000000000000000115813250000000000000000000000000041943570000000000000000000115546800000000000000000000000000041854135000000000000000000115280960000000000000000000000000041764972000000000000000000115015740000000000000000000000000041676081000000000000000000114751120000000000000000000000000041587462000000000000000000114487110000000000000000000000000041499112000000000000000000114223710000000000000000000000000041411032000000000000000000113960920000000000000000000000000041323221000000000000000000113698730000000000000000000000000041235677000000000000000000113437140000000000000000000000000041148399000000000000000000113176150000000000000000000000000041061388000000000000000000112915770000000000000000000000000040974641000000000000000000112655980000000000000000000000000040888159000000000000000000112396800000000000000000000000000040801940000000000000000000112138200000000000000000000000000040715983000000000000000000111880210000000000000000000000000040630287000000000000000000111622810000000000000000000000000040544853000000000000000000111365990000000000000000000000000040459678000000000000000000111109770000000000000000000000000040374762000000000000000000110854140000000000000000000000000040290104000000000000000000110599100000000000000000000000000040205703000000000000000000110344650000000000000000000000000040121559000000000000000000110090780000000000000000000000000040037671000000000000000000109837490000000000000000000000000039954037000000000000000000109584790000000000000000000000000039870658000000000000000000109332660000000000000000000000000039787531000000000000000000109081120000000000000000000000000039704657000000000000000000108830160000000000000000000000000039622035000000000000000000108579770000000000000000000000000039539664000000000000000000108329960000000000000000000000000039457542000000000000000000108080730000000000000000000000000039375670000000000000000000107832070000000000000000000000000039294046000000000000000000107583980000000000000000000000000039212669000000000000000000107336460000000000000000000000000039131540000000000000000000107089510000000000000000000000000039050657000000000000000000106843130000000000000000000000000038970019000000000000000000106597310000000000000000000000000038889625000000000000000000106352070000000000000000000000000038809476000000000000000000106107380000000000000000000000000038729569000000000000000000105863260000000000000000000000000038649904000000000000000000105619700000000000000000000000000038570481000000000000000000105376700000000000000000000000000038491299000000000000000000105134260000000000000000000000000038412357000000000000000000104892380000000000000000000000000038333654000000000000000000104651050000000000000000000000000038255190000000000000000000104410280000000000000000000000000038176963000000000000000000104170060000000000000000000000000038098973000000000000000000103930400000000000000000000000000038021220000000000000000000103691290000000000000000000000000037943702000000000000000000103452720000000000000000000000000037866419000000000000000000103214710000000000000000000000000037789371000000000000000000102977240000000000000000000000000037712555000000000000000000102740320000000000000000000000000037635973000000000000000000102503950000000000000000000000000037559622000000000000000000102268120000000000000000000000000037483503000000000000000000102032830000000000000000000000000037407614000000000000000000101798080000000000000000000000000037331955000000000000000000101563870000000000000000000000000037256526000000000000000000101330210000000000000000000000000037181324000000000000000000101097080000000000000000000000000037106351000000000000000000100864480000000000000000,
    48720215000000000000000000135138970000000000000000000000000048609797000000000000000000134828060000000000000000000000000048499726000000000000000000134517860000000000000000000000000048390003000000000000000000134208370000000000000000000000000048280624000000000000000000133899600000000000000000000000000048171590000000000000000000133591540000000000000000000000000048062898000000000000000000133284180000000000000000000000000047954548000000000000000000132977530000000000000000000000000047846538000000000000000000132671590000000000000000000000000047738866000000000000000000132366350000000000000000000000000047631532000000000000000000132061820000000000000000000000000047524534000000000000000000131757980000000000000000000000000047417871000000000000000000131454850000000000000000000000000047311542000000000000000000131152410000000000000000000000000047205545000000000000000000130850670000000000000000000000000047099880000000000000000000130549620000000000000000000000000046994544000000000000000000130249260000000000000000000000000046889538000000000000000000129949600000000000000000000000000046784859000000000000000000129650620000000000000000000000000046680506000000000000000000129352330000000000000000000000000046576478000000000000000000129054730000000000000000000000000046472774000000000000000000128757820000000000000000000000000046369393000000000000000000128461580000000000000000000000000046266334000000000000000000128166030000000000000000000000000046163595000000000000000000127871160000000000000000000000000046061175000000000000000000127576970000000000000000000000000045959073000000000000000000127283450000000000000000000000000045857288000000000000000000126990610000000000000000000000000045755819000000000000000000126698440000000000000000000000000045654665000000000000000000126406950000000000000000000000000045553824000000000000000000126116120000000000000000000000000045453295000000000000000000125825970000000000000000000000000045353078000000000000000000125536480000000000000000000000000045253170000000000000000000125247660000000000000000000000000045153572000000000000000000124959500000000000000000000000000045054282000000000000000000124672000000000000000000000000000044955298000000000000000000124385170000000000000000000000000044856620000000000000000000124099000000000000000000000000000044758247000000000000000000123813480000000000000000000000000044660177000000000000000000123528620000000000000000000000000044562410000000000000000000123244420000000000000000000000000044464945000000000000000000122960870000000000000000000000000044367779000000000000000000122677980000000000000000000000000044270913000000000000000000122395730000000000000000000000000044174346000000000000000000122114130000000000000000000000000044078075000000000000000000121833190000000000000000000000000043982101000000000000000000121552880000000000000000000000000043886423000000000000000000121273230000000000000000000000000043791038000000000000000000120994210000000000000000000000000043695947000000000000000000120715840000000000000000000000000043601150000000000000000000120438110000000000000000000000000043506645000000000000000000120161020000000000000000000000000043412437000000000000000000119884560000000000000000000000000043318550000000000000000000119608750000000000000000000000000043225594000000000000000000119333560000000000000000000000000043131872000000000000000000119059010000000000000000000000000043038474000000000000000000118785090000000000000000000000000042945658000000000000000000118511800000000000000000000000000042853150000000000000000000118239140000000000000000000000000042760930000000000000000000117967110000000000000000000000000042668994000000000000000000117695700000000000000000000000000042577341000000000000000000117424920000000000000000000000000042485968000000000000000000117154760000000000000000000000000042394875000000000000000000116885220000000000000000,
    56579098000000000000000000156603670000000000000000000000000056443184000000000000000000156243380000000000000000000000000056307724000000000000000000155883910000000000000000000000000056172718000000000000000000155525260000000000000000000000000056038163000000000000000000155167450000000000000000000000000055904056000000000000000000154810450000000000000000000000000055770397000000000000000000154454280000000000000000000000000055637182000000000000000000154098930000000000000000000000000055504410000000000000000000153744390000000000000000000000000055372079000000000000000000153390670000000000000000000000000055240186000000000000000000153037760000000000000000000000000055108731000000000000000000152685670000000000000000000000000054977710000000000000000000152334390000000000000000000000000054847123000000000000000000151983910000000000000000000000000054716967000000000000000000151634240000000000000000000000000054587239000000000000000000151285380000000000000000000000000054457940000000000000000000150937310000000000000000000000000054329065000000000000000000150590050000000000000000000000000054200614000000000000000000150243590000000000000000000000000054072585000000000000000000149897920000000000000000000000000053944976000000000000000000149553050000000000000000000000000053817785000000000000000000149208970000000000000000000000000053691010000000000000000000148865690000000000000000000000000053564650000000000000000000148523190000000000000000000000000053438702000000000000000000148181490000000000000000000000000053313165000000000000000000147840560000000000000000000000000053188038000000000000000000147500430000000000000000000000000053063318000000000000000000147161070000000000000000000000000052939003000000000000000000146822500000000000000000000000000052815093000000000000000000146484700000000000000000000000000052691585000000000000000000146147690000000000000000000000000052568477000000000000000000145811440000000000000000000000000052445769000000000000000000145475980000000000000000000000000052323458000000000000000000145141280000000000000000000000000052201542000000000000000000144807350000000000000000000000000052080021000000000000000000144474190000000000000000000000000051958894000000000000000000144141800000000000000000000000000051838160000000000000000000143810170000000000000000000000000051717833000000000000000000143479310000000000000000000000000051598626000000000000000000143149210000000000000000000000000051478359000000000000000000142819860000000000000000000000000051359086000000000000000000142491280000000000000000000000000051240265000000000000000000142163450000000000000000000000000051121833000000000000000000141836370000000000000000000000000051003783000000000000000000141510050000000000000000000000000050886111000000000000000000141184480000000000000000000000000050768816000000000000000000140859650000000000000000000000000050651897000000000000000000140535580000000000000000000000000050535350000000000000000000140212240000000000000000000000000050419176000000000000000000139889660000000000000000000000000050303373000000000000000000139567810000000000000000000000000050187938000000000000000000139246710000000000000000000000000050072871000000000000000000138926340000000000000000000000000049958170000000000000000000138606720000000000000000000000000049843834000000000000000000138287820000000000000000000000000049729861000000000000000000137969660000000000000000000000000049616250000000000000000000137652240000000000000000000000000049502999000000000000000000137335540000000000000000000000000049390107000000000000000000137019570000000000000000000000000049277573000000000000000000136704330000000000000000000000000049165394000000000000000000136389820000000000000000000000000049053571000000000000000000136076020000000000000000000000000048942101000000000000000000135762950000000000000000000000000048830982000000000000000000135450600000000000000000,
    66333961000000000000000000181477710000000000000000000000000066163687000000000000000000181060180000000000000000000000000065994045000000000000000000180643620000000000000000000000000065825032000000000000000000180228010000000000000000000000000065656644000000000000000000179813360000000000000000000000000065488878000000000000000000179399660000000000000000000000000065321730000000000000000000178986920000000000000000000000000065155197000000000000000000178575120000000000000000000000000064989275000000000000000000178164270000000000000000000000000064823960000000000000000000177754370000000000000000000000000064659250000000000000000000177345410000000000000000000000000064495141000000000000000000176937390000000000000000000000000064331629000000000000000000176530310000000000000000000000000064168712000000000000000000176124170000000000000000000000000064006385000000000000000000175718960000000000000000000000000063844647000000000000000000175314680000000000000000000000000063683492000000000000000000174911330000000000000000000000000063522920000000000000000000174508920000000000000000000000000063362925000000000000000000174107420000000000000000000000000063203505000000000000000000173706850000000000000000000000000063044657000000000000000000173307210000000000000000000000000062886378000000000000000000172908480000000000000000000000000062728665000000000000000000172510670000000000000000000000000062571515000000000000000000172113770000000000000000000000000062414925000000000000000000171717790000000000000000000000000062258891000000000000000000171322720000000000000000000000000062103411000000000000000000170928550000000000000000000000000061948483000000000000000000170535300000000000000000000000000061794102000000000000000000170142950000000000000000000000000061640267000000000000000000169751500000000000000000000000000061486974000000000000000000169360950000000000000000000000000061334221000000000000000000168971300000000000000000000000000061182006000000000000000000168582550000000000000000000000000061030324000000000000000000168194690000000000000000000000000060879176000000000000000000167807730000000000000000000000000060728564000000000000000000167421650000000000000000000000000060578691000000000000000000167036460000000000000000000000000060428942000000000000000000166652160000000000000000000000000060279838000000000000000000166268740000000000000000000000000060131298000000000000000000165886210000000000000000000000000059983278000000000000000000165504560000000000000000000000000059835771000000000000000000165123780000000000000000000000000059688775000000000000000000164743880000000000000000000000000059542288000000000000000000164364850000000000000000000000000059396305000000000000000000163986700000000000000000000000000059250826000000000000000000163609410000000000000000000000000059105847000000000000000000163233000000000000000000000000000058961366000000000000000000162857440000000000000000000000000058817380000000000000000000162482760000000000000000000000000058673888000000000000000000162108930000000000000000000000000058530886000000000000000000161735970000000000000000000000000058388373000000000000000000161363860000000000000000000000000058246346000000000000000000160992610000000000000000000000000058104802000000000000000000160622220000000000000000000000000057963740000000000000000000160252670000000000000000000000000057823157000000000000000000159883980000000000000000000000000057683050000000000000000000159516130000000000000000000000000057543418000000000000000000159149130000000000000000000000000057404259000000000000000000158782980000000000000000000000000057265569000000000000000000158417670000000000000000000000000057127348000000000000000000158053200000000000000000000000000056989592000000000000000000157689560000000000000000000000000056852300000000000000000000157326770000000000000000000000000056715469000000000000000000156964800000000000000000,
    78748936000000000000000000210302590000000000000000000000000078528393000000000000000000209818750000000000000000000000000078308825000000000000000000209336020000000000000000000000000078090226000000000000000000208854400000000000000000000000000077872588000000000000000000208373890000000000000000000000000077655902000000000000000000207894480000000000000000000000000077440163000000000000000000207416180000000000000000000000000077225361000000000000000000206938980000000000000000000000000077011491000000000000000000206462870000000000000000000000000076798544000000000000000000205987860000000000000000000000000076586514000000000000000000205513940000000000000000000000000076375395000000000000000000205041120000000000000000000000000076165178000000000000000000204569380000000000000000000000000075955858000000000000000000204098730000000000000000000000000075747427000000000000000000203629160000000000000000000000000075539879000000000000000000203160670000000000000000000000000075333208000000000000000000202693250000000000000000000000000075127407000000000000000000202226920000000000000000000000000074922470000000000000000000201761650000000000000000000000000074718390000000000000000000201297460000000000000000000000000074515162000000000000000000200834330000000000000000000000000074312779000000000000000000200372270000000000000000000000000074111235000000000000000000199911280000000000000000000000000073910524000000000000000000199451340000000000000000000000000073710640000000000000000000198992460000000000000000000000000073511578000000000000000000198534640000000000000000000000000073313332000000000000000000198077870000000000000000000000000073115896000000000000000000197622150000000000000000000000000072919264000000000000000000197167480000000000000000000000000072723431000000000000000000196713860000000000000000000000000072528392000000000000000000196261280000000000000000000000000072334141000000000000000000195809740000000000000000000000000072140673000000000000000000195359240000000000000000000000000071947982000000000000000000194909780000000000000000000000000071756063000000000000000000194461350000000000000000000000000071564911000000000000000000194013950000000000000000000000000071374521000000000000000000193567580000000000000000000000000071184889000000000000000000193122240000000000000000000000000070996008000000000000000000192677920000000000000000000000000070807875000000000000000000192234630000000000000000000000000070620485000000000000000000191792350000000000000000000000000070433836000000000000000000191351100000000000000000000000000070248024000000000000000000190910860000000000000000000000000070062751000000000000000000190471630000000000000000000000000069878247000000000000000000190033410000000000000000000000000069694491000000000000000000189596200000000000000000000000000069511452000000000000000000189159990000000000000000000000000069329123000000000000000000188724790000000000000000000000000069147499000000000000000000188290590000000000000000000000000068966576000000000000000000187857390000000000000000000000000068786350000000000000000000187425190000000000000000000000000068606815000000000000000000186993980000000000000000000000000068427969000000000000000000186563760000000000000000000000000068249805000000000000000000186134530000000000000000000000000068072322000000000000000000185706290000000000000000000000000067895513000000000000000000185279040000000000000000000000000067719376000000000000000000184852770000000000000000000000000067543905000000000000000000184427480000000000000000000000000067369098000000000000000000184003160000000000000000000000000067194950000000000000000000183579830000000000000000000000000067021457000000000000000000183157460000000000000000000000000066848616000000000000000000182736070000000000000000000000000066676422000000000000000000182315650000000000000000000000000066504871000000000000000000181896200000000000000000,
    95368345000000000000000000243705860000000000000000000000000095061788000000000000000000243145160000000000000000000000000094757070000000000000000000242585760000000000000000000000000094454170000000000000000000242027640000000000000000000000000094153066000000000000000000241470810000000000000000000000000093853735000000000000000000240915260000000000000000000000000093556156000000000000000000240360980000000000000000000000000093260309000000000000000000239807980000000000000000000000000092966175000000000000000000239256260000000000000000000000000092673760000000000000000000238705800000000000000000000000000092382982000000000000000000238156610000000000000000000000000092093833000000000000000000237608680000000000000000000000000091806341000000000000000000237062010000000000000000000000000091520466000000000000000000236516600000000000000000000000000091236186000000000000000000235972450000000000000000000000000090953486000000000000000000235429550000000000000000000000000090672346000000000000000000234887890000000000000000000000000090392750000000000000000000234347490000000000000000000000000090114680000000000000000000233808320000000000000000000000000089838120000000000000000000233270400000000000000000000000000089563054000000000000000000232733710000000000000000000000000089289466000000000000000000232198260000000000000000000000000089017339000000000000000000231664040000000000000000000000000088746659000000000000000000231131050000000000000000000000000088477411000000000000000000230599290000000000000000000000000088209579000000000000000000230068750000000000000000000000000087943148000000000000000000229539430000000000000000000000000087678105000000000000000000229011330000000000000000000000000087414436000000000000000000228484440000000000000000000000000087152130000000000000000000227958770000000000000000000000000086891548000000000000000000227434300000000000000000000000000086632299000000000000000000226911040000000000000000000000000086374371000000000000000000226388990000000000000000000000000086117750000000000000000000225868140000000000000000000000000085862424000000000000000000225348480000000000000000000000000085608379000000000000000000224830020000000000000000000000000085355605000000000000000000224312750000000000000000000000000085104088000000000000000000223796680000000000000000000000000084853817000000000000000000223281790000000000000000000000000084604780000000000000000000222768080000000000000000000000000084356965000000000000000000222255560000000000000000000000000084110361000000000000000000221744210000000000000000000000000083864957000000000000000000221234050000000000000000000000000083620741000000000000000000220725050000000000000000000000000083377703000000000000000000220217230000000000000000000000000083135832000000000000000000219710580000000000000000000000000082895118000000000000000000219205090000000000000000000000000082655550000000000000000000218700760000000000000000000000000082417118000000000000000000218197600000000000000000000000000082179812000000000000000000217695590000000000000000000000000081943622000000000000000000217194740000000000000000000000000081708538000000000000000000216695040000000000000000000000000081474552000000000000000000216196490000000000000000000000000081241653000000000000000000215699080000000000000000000000000081009835000000000000000000215202820000000000000000000000000080779277000000000000000000214707710000000000000000000000000080549399000000000000000000214213730000000000000000000000000080320742000000000000000000213720880000000000000000000000000080093139000000000000000000213229180000000000000000000000000079866571000000000000000000212738600000000000000000000000000079641027000000000000000000212249150000000000000000000000000079416501000000000000000000211760830000000000000000000000000079192982000000000000000000211273630000000000000000000000000078970463000000000000000000210787550000000000000000,
    120393460000000000000000000282414710000000000000000000000000119885450000000000000000000281764960000000000000000000000000119382780000000000000000000281116700000000000000000000000000118885330000000000000000000280469930000000000000000000000000118392990000000000000000000279824650000000000000000000000000117905640000000000000000000279180860000000000000000000000000117423190000000000000000000278538550000000000000000000000000116945530000000000000000000277897720000000000000000000000000116472550000000000000000000277258360000000000000000000000000116004170000000000000000000276620470000000000000000000000000115540280000000000000000000275984050000000000000000000000000115080810000000000000000000275349090000000000000000000000000114625650000000000000000000274715590000000000000000000000000114174730000000000000000000274083550000000000000000000000000113727960000000000000000000273452970000000000000000000000000113285270000000000000000000272823830000000000000000000000000112846560000000000000000000272196150000000000000000000000000112411780000000000000000000271569910000000000000000000000000111980830000000000000000000270945100000000000000000000000000111553660000000000000000000270321740000000000000000000000000111130190000000000000000000269699810000000000000000000000000110710360000000000000000000269079310000000000000000000000000110294090000000000000000000268460240000000000000000000000000109881330000000000000000000267842590000000000000000000000000109472000000000000000000000267226370000000000000000000000000109066060000000000000000000266611560000000000000000000000000108663440000000000000000000265998160000000000000000000000000108264080000000000000000000265386180000000000000000000000000107867940000000000000000000264775610000000000000000000000000107474940000000000000000000264166440000000000000000000000000107085050000000000000000000263558670000000000000000000000000106698210000000000000000000262952300000000000000000000000000106314950000000000000000000262347320000000000000000000000000105933460000000000000000000261743740000000000000000000000000105555460000000000000000000261141550000000000000000000000000105180320000000000000000000260540740000000000000000000000000104807980000000000000000000259941310000000000000000000000000104438410000000000000000000259343260000000000000000000000000104071560000000000000000000258746590000000000000000000000000103707400000000000000000000258151290000000000000000000000000103345860000000000000000000257557360000000000000000000000000102986930000000000000000000256964800000000000000000000000000102630550000000000000000000256373600000000000000000000000000102276700000000000000000000255783760000000000000000000000000101925320000000000000000000255195280000000000000000000000000101576390000000000000000000254608150000000000000000000000000101229870000000000000000000254022370000000000000000000000000100885730000000000000000000253437940000000000000000000000000100543920000000000000000000252854860000000000000000000000000100204430000000000000000000252273120000000000000000000000000099867208000000000000000000251692710000000000000000000000000099532230000000000000000000251113640000000000000000000000000099199464000000000000000000250535900000000000000000000000000098868879000000000000000000249959490000000000000000000000000098540446000000000000000000249384410000000000000000000000000098214135000000000000000000248810650000000000000000000000000097889919000000000000000000248238210000000000000000000000000097567769000000000000000000247667090000000000000000000000000097247657000000000000000000247097280000000000000000000000000096929557000000000000000000246528790000000000000000000000000096613444000000000000000000245961600000000000000000000000000096299291000000000000000000245395710000000000000000000000000095987073000000000000000000244831130000000000000000000000000095676765000000000000000000244267850000000000000000,
    175361570000000000000000000327271850000000000000000000000000173820310000000000000000000326518890000000000000000000000000172321550000000000000000000325767670000000000000000000000000170863370000000000000000000325018180000000000000000000000000169443950000000000000000000324270410000000000000000000000000168061570000000000000000000323524360000000000000000000000000166714620000000000000000000322780020000000000000000000000000165401570000000000000000000322037400000000000000000000000000164120980000000000000000000321296490000000000000000000000000162871480000000000000000000320557280000000000000000000000000161651790000000000000000000319819780000000000000000000000000160460690000000000000000000319083970000000000000000000000000159297010000000000000000000318349850000000000000000000000000158159670000000000000000000317617420000000000000000000000000157047610000000000000000000316886680000000000000000000000000155959870000000000000000000316157620000000000000000000000000154895500000000000000000000315430230000000000000000000000000153853610000000000000000000314704520000000000000000000000000152833350000000000000000000313980480000000000000000000000000151833940000000000000000000313258100000000000000000000000000150854590000000000000000000312537390000000000000000000000000149894590000000000000000000311818330000000000000000000000000148953240000000000000000000311100930000000000000000000000000148029890000000000000000000310385180000000000000000000000000147123920000000000000000000309671080000000000000000000000000146234640000000000000000000308958620000000000000000000000000145361590000000000000000000308247800000000000000000000000000144504190000000000000000000307538610000000000000000000000000143661920000000000000000000306831060000000000000000000000000142834270000000000000000000306125130000000000000000000000000142020760000000000000000000305420830000000000000000000000000141220950000000000000000000304718140000000000000000000000000140434400000000000000000000304017080000000000000000000000000139660680000000000000000000303317630000000000000000000000000138899410000000000000000000302619780000000000000000000000000138150190000000000000000000301923540000000000000000000000000137412670000000000000000000301228910000000000000000000000000136686480000000000000000000300535870000000000000000000000000135971300000000000000000000299844430000000000000000000000000135266800000000000000000000299154570000000000000000000000000134572660000000000000000000298466310000000000000000000000000133888590000000000000000000297779630000000000000000000000000133214310000000000000000000297094520000000000000000000000000132549540000000000000000000296411000000000000000000000000000131894010000000000000000000295729040000000000000000000000000131247470000000000000000000295048660000000000000000000000000130609670000000000000000000294369840000000000000000000000000129980380000000000000000000293692580000000000000000000000000129359380000000000000000000293016880000000000000000000000000128746440000000000000000000292342740000000000000000000000000128141360000000000000000000291670150000000000000000000000000127543920000000000000000000290999100000000000000000000000000126953950000000000000000000290329600000000000000000000000000126371240000000000000000000289661640000000000000000000000000125795620000000000000000000288995210000000000000000000000000125226910000000000000000000288330320000000000000000000000000124664940000000000000000000287666960000000000000000000000000124109550000000000000000000287005120000000000000000000000000123560640000000000000000000286344810000000000000000000000000123017900000000000000000000285686010000000000000000000000000122481310000000000000000000285028730000000000000000000000000121950720000000000000000000284372970000000000000000000000000121425960000000000000000000283718710000000000000000000000000120906920000000000000000000283065960000000000000000,
    393722610000000000000000000379253840000000000000000000000000406213480000000000000000000378381290000000000000000000000000417786730000000000000000000377510750000000000000000000000000428102110000000000000000000376642210000000000000000000000000436831790000000000000000000375775670000000000000000000000000443689760000000000000000000374911120000000000000000000000000448460820000000000000000000374048560000000000000000000000000451023630000000000000000000373187990000000000000000000000000451362720000000000000000000372329390000000000000000000000000449567150000000000000000000371472770000000000000000000000000445816190000000000000000000370618130000000000000000000000000440355920000000000000000000369765440000000000000000000000000433471600000000000000000000368914720000000000000000000000000425461150000000000000000000368065960000000000000000000000000416613180000000000000000000367219150000000000000000000000000407191290000000000000000000366374290000000000000000000000000397425030000000000000000000365531370000000000000000000000000387506160000000000000000000364690390000000000000000000000000377589060000000000000000000363851350000000000000000000000000367793700000000000000000000363014240000000000000000000000000358209890000000000000000000362179050000000000000000000000000348902130000000000000000000361345780000000000000000000000000339914280000000000000000000360514430000000000000000000000000331273780000000000000000000359685000000000000000000000000000322995400000000000000000000358857470000000000000000000000000315084330000000000000000000358031840000000000000000000000000307538310000000000000000000357208120000000000000000000000000300350290000000000000000000356386290000000000000000000000000293509610000000000000000000355566350000000000000000000000000287003070000000000000000000354748300000000000000000000000000280816030000000000000000000353932130000000000000000000000000274933050000000000000000000353117840000000000000000000000000269338410000000000000000000352305420000000000000000000000000264016410000000000000000000351494870000000000000000000000000258951720000000000000000000350686180000000000000000000000000254129440000000000000000000349879360000000000000000000000000249535330000000000000000000349074390000000000000000000000000245155800000000000000000000348271270000000000000000000000000240977980000000000000000000347470000000000000000000000000000236989710000000000000000000346670580000000000000000000000000233179590000000000000000000345872990000000000000000000000000229536880000000000000000000345077240000000000000000000000000226051550000000000000000000344283320000000000000000000000000222714200000000000000000000343491230000000000000000000000000219516070000000000000000000342700960000000000000000000000000216448950000000000000000000341912510000000000000000000000000213505210000000000000000000341125870000000000000000000000000210677710000000000000000000340341040000000000000000000000000207959800000000000000000000339558010000000000000000000000000205345260000000000000000000338776790000000000000000000000000202828300000000000000000000337997370000000000000000000000000200403510000000000000000000337219740000000000000000000000000198065850000000000000000000336443890000000000000000000000000195810590000000000000000000335669840000000000000000000000000193633340000000000000000000334897560000000000000000000000000191530020000000000000000000334127060000000000000000000000000189496620000000000000000000333358330000000000000000000000000187529650000000000000000000332591380000000000000000000000000185625730000000000000000000331826180000000000000000000000000183781670000000000000000000331062750000000000000000000000000181994510000000000000000000330301070000000000000000000000000180261460000000000000000000329541150000000000000000000000000178579900000000000000000000328782970000000000000000000000000176947370000000000000000000328026540000000000000000,
    153042090000000000000000000439492360000000000000000000000000152726200000000000000000000438481220000000000000000000000000152431180000000000000000000437472410000000000000000000000000152158240000000000000000000436465910000000000000000000000000151908690000000000000000000435461730000000000000000000000000151683920000000000000000000434459870000000000000000000000000151485430000000000000000000433460300000000000000000000000000151314820000000000000000000432463040000000000000000000000000151173830000000000000000000431468070000000000000000000000000151064320000000000000000000430475390000000000000000000000000150988310000000000000000000429485000000000000000000000000000150947840000000000000000000428496880000000000000000000000000150945320000000000000000000427511040000000000000000000000000150983190000000000000000000426527460000000000000000000000000151064130000000000000000000425546150000000000000000000000000151191000000000000000000000424567090000000000000000000000000151366880000000000000000000423590290000000000000000000000000151595110000000000000000000422615740000000000000000000000000151879240000000000000000000421643420000000000000000000000000152223140000000000000000000420673350000000000000000000000000152630940000000000000000000419705500000000000000000000000000153107110000000000000000000418739880000000000000000000000000153656450000000000000000000417776490000000000000000000000000154284150000000000000000000416815310000000000000000000000000154995770000000000000000000415856340000000000000000000000000155797340000000000000000000414899580000000000000000000000000156695310000000000000000000413945020000000000000000000000000157696670000000000000000000412992660000000000000000000000000158808930000000000000000000412042480000000000000000000000000160040180000000000000000000411094500000000000000000000000000161399140000000000000000000410148690000000000000000000000000162895210000000000000000000409205060000000000000000000000000164538510000000000000000000408263600000000000000000000000000166339920000000000000000000407324310000000000000000000000000168311180000000000000000000406387180000000000000000000000000170465760000000000000000000405452200000000000000000000000000172814680000000000000000000404519370000000000000000000000000175375090000000000000000000403588700000000000000000000000000178161840000000000000000000402660160000000000000000000000000181191770000000000000000000401733760000000000000000000000000184482930000000000000000000400809490000000000000000000000000188054660000000000000000000399887340000000000000000000000000191927630000000000000000000398967320000000000000000000000000196123860000000000000000000398049420000000000000000000000000200666780000000000000000000397133620000000000000000000000000205581170000000000000000000396219940000000000000000000000000210893120000000000000000000395308350000000000000000000000000216629930000000000000000000394398870000000000000000000000000222819870000000000000000000393491470000000000000000000000000229491880000000000000000000392586170000000000000000000000000236675040000000000000000000391682940000000000000000000000000244397940000000000000000000390781800000000000000000000000000252687660000000000000000000389882720000000000000000000000000261568410000000000000000000388985720000000000000000000000000271059820000000000000000000388090780000000000000000000000000281174500000000000000000000387197900000000000000000000000000291915050000000000000000000386307070000000000000000000000000303270300000000000000000000385418290000000000000000000000000315210600000000000000000000384531560000000000000000000000000327682430000000000000000000383646870000000000000000000000000340602380000000000000000000382764210000000000000000000000000353850990000000000000000000381883590000000000000000000000000367266400000000000000000000381004980000000000000000000000000380641530000000000000000000380128410000000000000000,
    187001110000000000000000000500000000000000000000000000000000186233570000000000000000000498849650000000000000000000000000185470500000000000000000000497701940000000000000000000000000184711880000000000000000000496556880000000000000000000000000183957720000000000000000000495414450000000000000000000000000183208040000000000000000000494274650000000000000000000000000182462840000000000000000000493137470000000000000000000000000181722150000000000000000000492002910000000000000000000000000180985970000000000000000000490870960000000000000000000000000180254340000000000000000000489741610000000000000000000000000179527290000000000000000000488614860000000000000000000000000178804830000000000000000000487490700000000000000000000000000178087010000000000000000000486369130000000000000000000000000177373860000000000000000000485250140000000000000000000000000176665440000000000000000000484133720000000000000000000000000175961780000000000000000000483019880000000000000000000000000175262950000000000000000000481908590000000000000000000000000174569000000000000000000000480799860000000000000000000000000173880000000000000000000000479693690000000000000000000000000173196030000000000000000000478590050000000000000000000000000172517150000000000000000000477488960000000000000000000000000171843450000000000000000000476390400000000000000000000000000171175030000000000000000000475294370000000000000000000000000170511980000000000000000000474200860000000000000000000000000169854410000000000000000000473109860000000000000000000000000169202440000000000000000000472021380000000000000000000000000168556190000000000000000000470935400000000000000000000000000167915800000000000000000000469851920000000000000000000000000167281410000000000000000000468770930000000000000000000000000166653170000000000000000000467692420000000000000000000000000166031250000000000000000000466616400000000000000000000000000165415840000000000000000000465542860000000000000000000000000164807120000000000000000000464471780000000000000000000000000164205290000000000000000000463403170000000000000000000000000163610580000000000000000000462337020000000000000000000000000163023220000000000000000000461273320000000000000000000000000162443470000000000000000000460212070000000000000000000000000161871590000000000000000000459153250000000000000000000000000161307870000000000000000000458096880000000000000000000000000160752630000000000000000000457042940000000000000000000000000160206190000000000000000000455991420000000000000000000000000159668910000000000000000000454942310000000000000000000000000159141160000000000000000000453895630000000000000000000000000158623410000000000000000000452851350000000000000000000000000158115910000000000000000000451809470000000000000000000000000157619310000000000000000000450769990000000000000000000000000157134040000000000000000000449732910000000000000000000000000156660630000000000000000000448698210000000000000000000000000156199660000000000000000000447665880000000000000000000000000155751720000000000000000000446635940000000000000000000000000155317470000000000000000000445608360000000000000000000000000154897600000000000000000000444583150000000000000000000000000154492860000000000000000000443560300000000000000000000000000154104060000000000000000000442539800000000000000000000000000153732040000000000000000000441521640000000000000000000000000153377720000000000000000000440505830000000000000000]
}
