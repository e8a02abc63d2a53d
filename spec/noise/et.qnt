/// The published table of the et noise curve: rows of (frequency * 10^20, amplitude density * 10^44),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 3
  pure val ASD = true
  pure val ROWS = 3000
  pure val CHUNKS: List[int] = [
    130893870000000000000000000000000000121346710000000000000000141836680000000000000000000000000000120974610000000000000000155322220000000000000000000000000000120603650000000000000000169132110000000000000000000000000000120233830000000000000000184385230000000000000000000000000000119865140000000000000000202742620000000000000000000000000000119497580000000000000000221460830000000000000000000000000000119131150000000000000000242225860000000000000000000000000000118765850000000000000000267520290000000000000000000000000000118401660000000000000000293153380000000000000000000000000000118038590000000000000000321720910000000000000000000000000000117676630000000000000000356964830000000000000000000000000000117315790000000000000000392349130000000000000000000000000000116956050000000000000000431963460000000000000000000000000000116597410000000000000000481438460000000000000000000000000000116239870000000000000000530363040000000000000000000000000000115883430000000000000000587412040000000000000000000000000000115528080000000000000000659441240000000000000000000000000000115173820000000000000000728968340000000000000000000000000000114820650000000000000000806851650000000000000000000000000000114468560000000000000000903837440000000000000000000000000000114117550000000000000000993123040000000000000000000000000000113767620000000000000001093110700000000000000000000000000000113418760000000000000001213941200000000000000000000000000000113070970000000000000001317514400000000000000000000000000000112724250000000000000001437254200000000000000000000000000000112378590000000000000001566560700000000000000000000000000000112033980000000000000001669190400000000000000000000000000000111690440000000000000001772562400000000000000000000000000000111347950000000000000001879922600000000000000000000000000000111006510000000000000001988661500000000000000000000000000000110666120000000000000002103153700000000000000000000000000000110326770000000000000002220391400000000000000000000000000000109988460000000000000002331972400000000000000000000000000000109651190000000000000002389165100000000000000000000000000000109314950000000000000002492042900000000000000000000000000000108979740000000000000002575776000000000000000000000000000000108645570000000000000002642175700000000000000000000000000000108312410000000000000002759465400000000000000000000000000000107980280000000000000003573220000000000000000000000000000000107649170000000000000002911697300000000000000000000000000000107319070000000000000002950507900000000000000000000000000000106989980000000000000003020205400000000000000000000000000000106661910000000000000003087957000000000000000000000000000000106334830000000000000003171264800000000000000000000000000000106008770000000000000003247001800000000000000000000000000000105683700000000000000003315731800000000000000000000000000000105359630000000000000003388885500000000000000000000000000000105036550000000000000003437178500000000000000000000000000000104714460000000000000003469602000000000000000000000000000000104393360000000000000003518882700000000000000000000000000000104073250000000000000003563602000000000000000000000000000000103754120000000000000003608499700000000000000000000000000000103435960000000000000003658734400000000000000000000000000000103118780000000000000003680078300000000000000000000000000000102802580000000000000003683473200000000000000000000000000000102487340000000000000003688364700000000000000000000000000000102173070000000000000003687115700000000000000000000000000000101859760000000000000003671642900000000000000000000000000000101547420000000000000003650460800000000000000000000000000000101236030000000000000003614015000000000000000000000000000000100925600000000000000003579773400000000000000000000000000000100616120000000000000003544543600000000000000000000000000000100307590000000000000003495951700000000000000000000000000000100000000000000000000,
    1330757200000000000000000000000000147703160000000000000000001474436500000000000000000000000000147250240000000000000000001639694800000000000000000000000000146798710000000000000000001847093300000000000000000000000000146348560000000000000000002056440300000000000000000000000000145899800000000000000000002297098000000000000000000000000000145452410000000000000000002603370100000000000000000000000000145006390000000000000000002911474100000000000000000000000000144561730000000000000000003275242800000000000000000000000000144118450000000000000000003751004000000000000000000000000000143676520000000000000000004229492500000000000000000000000000143235940000000000000000004807537700000000000000000000000000142796720000000000000000005588163500000000000000000000000000142358850000000000000000006373008600000000000000000000000000141922310000000000000000007356312700000000000000000000000000141487120000000000000000008748047800000000000000000000000000141053260000000000000000010146466000000000000000000000000000140620730000000000000000012018016000000000000000000000000000140189530000000000000000014873489000000000000000000000000000139759650000000000000000017737594000000000000000000000000000139331080000000000000000022220477000000000000000000000000000138903840000000000000000030065822000000000000000000000000000138477900000000000000000037866560000000000000000000000000000138053260000000000000000064483565000000000000000000000000000137629930000000000000000120490890000000000000000000000000000137207900000000000000000159782780000000000000000000000000000136787160000000000000000174692220000000000000000000000000000136367720000000000000000155975980000000000000000000000000000135949560000000000000000129184670000000000000000000000000000135532680000000000000000101288080000000000000000000000000000135117080000000000000000086877495000000000000000000000000000134702750000000000000000071210995000000000000000000000000000134289690000000000000000058627033000000000000000000000000000133877900000000000000000054749336000000000000000000000000000133467380000000000000000050792200000000000000000000000000000133058110000000000000000047586167000000000000000000000000000132650100000000000000000046278991000000000000000000000000000132243330000000000000000044960421000000000000000000000000000131837820000000000000000043998774000000000000000000000000000131433550000000000000000043852212000000000000000000000000000131030520000000000000000043703514000000000000000000000000000130628720000000000000000043774174000000000000000000000000000130228160000000000000000044343206000000000000000000000000000129828820000000000000000044913141000000000000000000000000000129430710000000000000000045658828000000000000000000000000000129033820000000000000000046803701000000000000000000000000000128638150000000000000000047950831000000000000000000000000000128243690000000000000000049268484000000000000000000000000000127850440000000000000000050974980000000000000000000000000000127458400000000000000000052684611000000000000000000000000000127067560000000000000000055041719000000000000000000000000000126677910000000000000000058018524000000000000000000000000000126289460000000000000000061044352000000000000000000000000000125902210000000000000000064347148000000000000000000000000000125516140000000000000000068241746000000000000000000000000000125131250000000000000000072199171000000000000000000000000000124747550000000000000000076513500000000000000000000000000000124365020000000000000000081595930000000000000000000000000000123983660000000000000000086756851000000000000000000000000000123603470000000000000000092388876000000000000000000000000000123224450000000000000000099047361000000000000000000000000000122846590000000000000000105802080000000000000000000000000000122469890000000000000000113191410000000000000000000000000000122094350000000000000000121984920000000000000000000000000000121719960000000000000,
    17699482000000000000000000000000179784230000000000000000000018066860000000000000000000000000179232930000000000000000000018445885000000000000000000000000178683330000000000000000000018852812000000000000000000000000178135410000000000000000000019301478000000000000000000000000177589170000000000000000000019765370000000000000000000000000177044600000000000000000000020268125000000000000000000000000176501710000000000000000000020829931000000000000000000000000175960480000000000000000000021411500000000000000000000000000175420910000000000000000000022039064000000000000000000000000174883000000000000000000000022744561000000000000000000000000174346730000000000000000000023472645000000000000000000000000173812110000000000000000000024271518000000000000000000000000173279130000000000000000000025181833000000000000000000000000172747780000000000000000000026120006000000000000000000000000172218060000000000000000000027153796000000000000000000000000171689970000000000000000000028340186000000000000000000000000171163490000000000000000000029559880000000000000000000000000170638630000000000000000000030907146000000000000000000000000170115380000000000000000000032460976000000000000000000000000169593730000000000000000000034053261000000000000000000000000169073690000000000000000000035813820000000000000000000000000168555240000000000000000000037851087000000000000000000000000168038370000000000000000000039931266000000000000000000000000167523100000000000000000000042343841000000000000000000000000167009400000000000000000000045189365000000000000000000000000166497280000000000000000000048110387000000000000000000000000165986730000000000000000000051351562000000000000000000000000165477740000000000000000000055122186000000000000000000000000164970310000000000000000000058977568000000000000000000000000164464450000000000000000000063251720000000000000000000000000163960130000000000000000000068230780000000000000000000000000163457360000000000000000000073304959000000000000000000000000162956130000000000000000000078927666000000000000000000000000162456430000000000000000000085489370000000000000000000000000161958270000000000000000000092158867000000000000000000000000161461640000000000000000000099549849000000000000000000000000160966530000000000000000000108195370000000000000000000000000160472940000000000000000000116965100000000000000000000000000159980860000000000000000000126879610000000000000000000000000159490290000000000000000000138600390000000000000000000000000159001220000000000000000000150514280000000000000000000000000158513660000000000000000000163756910000000000000000000000000158027590000000000000000000179348350000000000000000000000000157543010000000000000000000195174870000000000000000000000000157059910000000000000000000212794550000000000000000000000000156578300000000000000000000233626360000000000000000000000000156098170000000000000000000254749710000000000000000000000000155619500000000000000000000278316880000000000000000000000000155142310000000000000000000306317560000000000000000000000000154666570000000000000000000334686040000000000000000000000000154192300000000000000000000366423250000000000000000000000000153719480000000000000000000404347120000000000000000000000000153248110000000000000000000442742600000000000000000000000000152778190000000000000000000485672150000000000000000000000000152309700000000000000000000537235220000000000000000000000000151842660000000000000000000589365590000000000000000000000000151377040000000000000000000648116420000000000000000000000000150912860000000000000000000719348540000000000000000000000000150450090000000000000000000791330970000000000000000000000000149988750000000000000000000872881900000000000000000000000000149528820000000000000000000972683400000000000000000000000000149070300000000000000000001073494800000000000000000000000000148613190000000000000000001188464500000000000000000000000000148157480000000000000,
    7536261400000000000000000000000218833280000000000000000000007628759200000000000000000000000218162240000000000000000000007722441700000000000000000000000217493270000000000000000000007817315300000000000000000000000216826340000000000000000000007913411700000000000000000000000216161460000000000000000000008010747900000000000000000000000215498610000000000000000000008109325700000000000000000000000214837800000000000000000000008209183300000000000000000000000214179020000000000000000000008310341800000000000000000000000213522260000000000000000000008412796000000000000000000000000212867500000000000000000000008516593500000000000000000000000212214760000000000000000000008621761200000000000000000000000211564020000000000000000000008728283500000000000000000000000210915280000000000000000000008836201700000000000000000000000210268520000000000000000000008945556800000000000000000000000209623750000000000000000000009056323700000000000000000000000208980950000000000000000000009168580400000000000000000000000208340130000000000000000000009282372500000000000000000000000207701270000000000000000000009397645000000000000000000000000207064370000000000000000000009514500900000000000000000000000206429420000000000000000000009633002600000000000000000000000205796420000000000000000000009753061800000000000000000000000205165360000000000000000000009874817300000000000000000000000204536230000000000000000000009998355900000000000000000000000203909040000000000000000000010123540000000000000000000000000203283770000000000000000000010250560000000000000000000000000202660410000000000000000000010379539000000000000000000000000202038970000000000000000000010510267000000000000000000000000201419430000000000000000000010642567000000000000000000000000200801790000000000000000000010776721000000000000000000000000200186050000000000000000000010912587000000000000000000000000199572190000000000000000000011050500000000000000000000000000198960220000000000000000000011190655000000000000000000000000198350120000000000000000000011332604000000000000000000000000197741900000000000000000000011476785000000000000000000000000197135540000000000000000000011623463000000000000000000000000196531040000000000000000000011772022000000000000000000000000195928390000000000000000000011923044000000000000000000000000195327590000000000000000000012076890000000000000000000000000194728630000000000000000000012232714000000000000000000000000194131510000000000000000000012391291000000000000000000000000193536220000000000000000000012553114000000000000000000000000192942760000000000000000000012717024000000000000000000000000192351110000000000000000000012884302000000000000000000000000191761280000000000000000000013055556000000000000000000000000191173260000000000000000000013229106000000000000000000000000190587040000000000000000000013406365000000000000000000000000190002620000000000000000000013588290000000000000000000000000189419990000000000000000000013772689000000000000000000000000188839150000000000000000000013961488000000000000000000000000188260090000000000000000000014156020000000000000000000000000187682800000000000000000000014353243000000000000000000000000187107280000000000000000000014555790000000000000000000000000186533530000000000000000000014765519000000000000000000000000185961540000000000000000000014978210000000000000000000000000185391310000000000000000000015197469000000000000000000000000184822820000000000000000000015425895000000000000000000000000184256070000000000000000000015657619000000000000000000000000183691060000000000000000000015906272000000000000000000000000183127790000000000000000000016172969000000000000000000000000182566240000000000000000000016446588000000000000000000000000182006420000000000000000000016734705000000000000000000000000181448310000000000000000000017043662000000000000000000000000180891910000000000000000000017361548000000000000000000000000180337220000000000000,
    3490058000000000000000000000000266363770000000000000000000003531690000000000000000000000000265546990000000000000000000003573840800000000000000000000000264732710000000000000000000003616514600000000000000000000000263920920000000000000000000003659719000000000000000000000000263111630000000000000000000003703462200000000000000000000000262304820000000000000000000003747748500000000000000000000000261500480000000000000000000003792585900000000000000000000000260698610000000000000000000003837983000000000000000000000000259899200000000000000000000003883944200000000000000000000000259102230000000000000000000003930477800000000000000000000000258307720000000000000000000003977592800000000000000000000000257515630000000000000000000004025293700000000000000000000000256725980000000000000000000004073589200000000000000000000000255938750000000000000000000004122488500000000000000000000000255153930000000000000000000004171996500000000000000000000000254371520000000000000000000004222122100000000000000000000000253591510000000000000000000004272874900000000000000000000000252813890000000000000000000004324259900000000000000000000000252038660000000000000000000004376286300000000000000000000000251265800000000000000000000004428964300000000000000000000000250495310000000000000000000004482299100000000000000000000000249727190000000000000000000004536300200000000000000000000000248961420000000000000000000004590978200000000000000000000000248197990000000000000000000004646338600000000000000000000000247436910000000000000000000004702391100000000000000000000000246678170000000000000000000004759146800000000000000000000000245921750000000000000000000004816611500000000000000000000000245167640000000000000000000004874795100000000000000000000000244415860000000000000000000004933709400000000000000000000000243666370000000000000000000004993360200000000000000000000000242919190000000000000000000005053758000000000000000000000000242174290000000000000000000005114913700000000000000000000000241431680000000000000000000005176833900000000000000000000000240691350000000000000000000005239529800000000000000000000000239953290000000000000000000005303014000000000000000000000000239217490000000000000000000005367293000000000000000000000000238483950000000000000000000005432377700000000000000000000000237752650000000000000000000005498281600000000000000000000000237023600000000000000000000005565011200000000000000000000000236296790000000000000000000005632577800000000000000000000000235572200000000000000000000005700995400000000000000000000000234849840000000000000000000005770271000000000000000000000000234129690000000000000000000005840416200000000000000000000000233411750000000000000000000005911445600000000000000000000000232696010000000000000000000005983366500000000000000000000000231982460000000000000000000006056190600000000000000000000000231271100000000000000000000006129937700000000000000000000000230561930000000000000000000006204613700000000000000000000000229854930000000000000000000006280229500000000000000000000000229150090000000000000000000006356801500000000000000000000000228447420000000000000000000006434338000000000000000000000000227746910000000000000000000006512851100000000000000000000000227048540000000000000000000006592358700000000000000000000000226352310000000000000000000006672869500000000000000000000000225658220000000000000000000006754395500000000000000000000000224966250000000000000000000006836956100000000000000000000000224276410000000000000000000006920560700000000000000000000000223588680000000000000000000007005220900000000000000000000000222903060000000000000000000007090957800000000000000000000000222219550000000000000000000007177781900000000000000000000000221538130000000000000000000007265703900000000000000000000000220858800000000000000000000007354751100000000000000000000000220181550000000000000000000007444934400000000000000000000000219506380000000000000,
    1655785100000000000000000000000324217870000000000000000000001674825000000000000000000000000323223680000000000000000000001694096300000000000000000000000322232540000000000000000000001713602400000000000000000000000321244430000000000000000000001733345100000000000000000000000320259360000000000000000000001753328100000000000000000000000319277310000000000000000000001773554900000000000000000000000318298270000000000000000000001794027400000000000000000000000317322230000000000000000000001814749400000000000000000000000316349190000000000000000000001835724400000000000000000000000315379130000000000000000000001856954700000000000000000000000314412040000000000000000000001878444000000000000000000000000313447920000000000000000000001900196100000000000000000000000312486750000000000000000000001922213200000000000000000000000311528530000000000000000000001944499300000000000000000000000310573260000000000000000000001967058200000000000000000000000309620910000000000000000000001989892300000000000000000000000308671480000000000000000000002013005600000000000000000000000307724960000000000000000000002036402300000000000000000000000306781340000000000000000000002060084700000000000000000000000305840620000000000000000000002084057100000000000000000000000304902780000000000000000000002108323700000000000000000000000303967820000000000000000000002132887000000000000000000000000303035730000000000000000000002157751400000000000000000000000302106490000000000000000000002182921300000000000000000000000301180100000000000000000000002208399300000000000000000000000300256560000000000000000000002234190000000000000000000000000299335840000000000000000000002260298000000000000000000000000298417950000000000000000000002286725900000000000000000000000297502870000000000000000000002313478400000000000000000000000296590600000000000000000000002340560400000000000000000000000295681130000000000000000000002367974700000000000000000000000294774440000000000000000000002395726100000000000000000000000293870540000000000000000000002423819600000000000000000000000292969410000000000000000000002452258100000000000000000000000292071040000000000000000000002481046700000000000000000000000291175430000000000000000000002510190700000000000000000000000290282560000000000000000000002539692900000000000000000000000289392430000000000000000000002569558600000000000000000000000288505030000000000000000000002599793300000000000000000000000287620350000000000000000000002630400100000000000000000000000286738380000000000000000000002661384400000000000000000000000285859120000000000000000000002692751900000000000000000000000284982550000000000000000000002724505800000000000000000000000284108680000000000000000000002756651700000000000000000000000283237480000000000000000000002789195600000000000000000000000282368950000000000000000000002822140700000000000000000000000281503090000000000000000000002855493000000000000000000000000280639880000000000000000000002889258600000000000000000000000279779320000000000000000000002923440800000000000000000000000278921390000000000000000000002958045900000000000000000000000278066100000000000000000000002993080200000000000000000000000277213430000000000000000000003028547300000000000000000000000276363380000000000000000000003064453500000000000000000000000275515930000000000000000000003100805400000000000000000000000274671080000000000000000000003137606800000000000000000000000273828820000000000000000000003174864300000000000000000000000272989150000000000000000000003212584700000000000000000000000272152050000000000000000000003250771900000000000000000000000271317510000000000000000000003289432600000000000000000000000270485540000000000000000000003328574300000000000000000000000269656110000000000000000000003368200700000000000000000000000268829230000000000000000000003408319000000000000000000000000268004890000000000000000000003448936700000000000000000000000267183070000000000000,
    809189790000000000000000000000394637850000000000000000000000818095780000000000000000000000393427720000000000000000000000827105900000000000000000000000392221300000000000000000000000836221700000000000000000000000391018580000000000000000000000845444620000000000000000000000389819550000000000000000000000854775590000000000000000000000388624200000000000000000000000864216210000000000000000000000387432510000000000000000000000873768000000000000000000000000386244480000000000000000000000883431910000000000000000000000385060090000000000000000000000893209620000000000000000000000383879330000000000000000000000903102680000000000000000000000382702200000000000000000000000913112100000000000000000000000381528670000000000000000000000923239610000000000000000000000380358740000000000000000000000933486840000000000000000000000379192400000000000000000000000943854820000000000000000000000378029630000000000000000000000954345360000000000000000000000376870430000000000000000000000964960150000000000000000000000375714790000000000000000000000975700260000000000000000000000374562680000000000000000000000986567560000000000000000000000373414120000000000000000000000997563830000000000000000000000372269070000000000000000000001008690200000000000000000000000371127530000000000000000000001019948500000000000000000000000369989500000000000000000000001031340700000000000000000000000368854950000000000000000000001042867900000000000000000000000367723890000000000000000000001054532100000000000000000000000366596290000000000000000000001066335300000000000000000000000365472150000000000000000000001078278600000000000000000000000364351450000000000000000000001090364100000000000000000000000363234200000000000000000000001102593800000000000000000000000362120370000000000000000000001114969000000000000000000000000361009950000000000000000000001127491800000000000000000000000359902940000000000000000000001140164300000000000000000000000358799320000000000000000000001152987700000000000000000000000357699090000000000000000000001165964500000000000000000000000356602240000000000000000000001179096600000000000000000000000355508740000000000000000000001192385400000000000000000000000354418600000000000000000000001205833300000000000000000000000353331800000000000000000000001219442600000000000000000000000352248340000000000000000000001233214500000000000000000000000351168190000000000000000000001247151600000000000000000000000350091360000000000000000000001261256100000000000000000000000349017830000000000000000000001275529500000000000000000000000347947590000000000000000000001289974400000000000000000000000346880640000000000000000000001304593100000000000000000000000345816950000000000000000000001319387100000000000000000000000344756530000000000000000000001334359100000000000000000000000343699360000000000000000000001349511600000000000000000000000342645430000000000000000000001364846200000000000000000000000341594740000000000000000000001380365500000000000000000000000340547260000000000000000000001396072100000000000000000000000339503000000000000000000000001411967800000000000000000000000338461940000000000000000000001428055200000000000000000000000337424070000000000000000000001444337300000000000000000000000336389380000000000000000000001460815500000000000000000000000335357870000000000000000000001477492800000000000000000000000334329520000000000000000000001494372100000000000000000000000333304320000000000000000000001511455200000000000000000000000332282270000000000000000000001528745000000000000000000000000331263350000000000000000000001546244400000000000000000000000330247560000000000000000000001563955400000000000000000000000329234880000000000000000000001581881100000000000000000000000328225300000000000000000000001600024400000000000000000000000327218820000000000000000000001618387400000000000000000000000326215430000000000000000000001636973200000000000000000000000325215120000000000000,
    407946130000000000000000000000480353010000000000000000000000412237770000000000000000000000478880050000000000000000000000416577860000000000000000000000477411600000000000000000000000420966800000000000000000000000475947650000000000000000000000425405280000000000000000000000474488190000000000000000000000429893920000000000000000000000473033210000000000000000000000434433140000000000000000000000471582690000000000000000000000439023660000000000000000000000470136610000000000000000000000443666110000000000000000000000468694970000000000000000000000448360940000000000000000000000467257760000000000000000000000453108900000000000000000000000465824940000000000000000000000457910650000000000000000000000464396530000000000000000000000462766660000000000000000000000462972490000000000000000000000467677690000000000000000000000461552820000000000000000000000472644450000000000000000000000460137500000000000000000000000477667410000000000000000000000458726520000000000000000000000482747380000000000000000000000457319870000000000000000000000487885090000000000000000000000455917530000000000000000000000493081030000000000000000000000454519500000000000000000000000498336030000000000000000000000453125750000000000000000000000503650870000000000000000000000451736270000000000000000000000509026040000000000000000000000450351050000000000000000000000514462420000000000000000000000448970090000000000000000000000519960810000000000000000000000447593350000000000000000000000525521730000000000000000000000446220840000000000000000000000531146080000000000000000000000444852540000000000000000000000536834700000000000000000000000443488430000000000000000000000542588140000000000000000000000442128510000000000000000000000548407330000000000000000000000440772750000000000000000000000554293130000000000000000000000439421150000000000000000000000560246130000000000000000000000438073700000000000000000000000566267280000000000000000000000436730380000000000000000000000572357500000000000000000000000435391180000000000000000000000578517370000000000000000000000434056080000000000000000000000584747900000000000000000000000432725080000000000000000000000591050040000000000000000000000431398160000000000000000000000597424400000000000000000000000430075310000000000000000000000603872020000000000000000000000428756520000000000000000000000610393890000000000000000000000427441770000000000000000000000616990650000000000000000000000426131050000000000000000000000623663380000000000000000000000424824350000000000000000000000630413100000000000000000000000423521660000000000000000000000637240470000000000000000000000422222960000000000000000000000644146640000000000000000000000420928250000000000000000000000651132650000000000000000000000419637500000000000000000000000658199190000000000000000000000418350710000000000000000000000665347460000000000000000000000417067870000000000000000000000672578530000000000000000000000415788960000000000000000000000679893130000000000000000000000414513980000000000000000000000687292490000000000000000000000413242900000000000000000000000694777740000000000000000000000411975720000000000000000000000702349630000000000000000000000410712430000000000000000000000710009440000000000000000000000409453010000000000000000000000717758350000000000000000000000408197450000000000000000000000725597140000000000000000000000406945750000000000000000000000733527130000000000000000000000405697880000000000000000000000741549550000000000000000000000404453830000000000000000000000749665200000000000000000000000403213610000000000000000000000757875470000000000000000000000401977180000000000000000000000766181630000000000000000000000400744550000000000000000000000774584530000000000000000000000399515690000000000000000000000783085580000000000000000000000398290610000000000000000000000791686130000000000000000000000397069280000000000000000000000800387040000000000000000000000395851700000000000000,
    213437090000000000000000000000584685480000000000000000000000215496430000000000000000000000582892580000000000000000000000217581620000000000000000000000581105190000000000000000000000219692830000000000000000000000579323270000000000000000000000221830160000000000000000000000577546820000000000000000000000223993830000000000000000000000575775810000000000000000000000226184040000000000000000000000574010240000000000000000000000228400910000000000000000000000572250080000000000000000000000230644680000000000000000000000570495320000000000000000000000232915560000000000000000000000568745940000000000000000000000235213690000000000000000000000567001920000000000000000000000237539350000000000000000000000565263250000000000000000000000239892770000000000000000000000563529910000000000000000000000242274090000000000000000000000561801890000000000000000000000244683620000000000000000000000560079160000000000000000000000247121600000000000000000000000558361720000000000000000000000249588210000000000000000000000556649550000000000000000000000252083760000000000000000000000554942620000000000000000000000254608520000000000000000000000553240930000000000000000000000257162680000000000000000000000551544460000000000000000000000259746570000000000000000000000549853190000000000000000000000262360480000000000000000000000548167110000000000000000000000265004620000000000000000000000546486190000000000000000000000267679330000000000000000000000544810430000000000000000000000270384930000000000000000000000543139810000000000000000000000273121620000000000000000000000541474310000000000000000000000275889790000000000000000000000539813920000000000000000000000278689760000000000000000000000538158620000000000000000000000281521740000000000000000000000536508400000000000000000000000284386150000000000000000000000534863240000000000000000000000287283310000000000000000000000533223120000000000000000000000290213470000000000000000000000531588030000000000000000000000293177040000000000000000000000529957950000000000000000000000296174370000000000000000000000528332880000000000000000000000299205720000000000000000000000526712780000000000000000000000302271520000000000000000000000525097660000000000000000000000305372150000000000000000000000523487480000000000000000000000308507860000000000000000000000521882250000000000000000000000311679110000000000000000000000520281930000000000000000000000314886290000000000000000000000518686530000000000000000000000318129670000000000000000000000517096010000000000000000000000321409730000000000000000000000515510380000000000000000000000324726880000000000000000000000513929600000000000000000000000328081410000000000000000000000512353680000000000000000000000331473800000000000000000000000510782580000000000000000000000334904500000000000000000000000509216300000000000000000000000338373790000000000000000000000507654830000000000000000000000341882200000000000000000000000506098140000000000000000000000345430170000000000000000000000504546230000000000000000000000349018030000000000000000000000502999080000000000000000000000352646290000000000000000000000501456670000000000000000000000356315450000000000000000000000499918990000000000000000000000360025830000000000000000000000498386020000000000000000000000363777980000000000000000000000496857760000000000000000000000367572410000000000000000000000495334180000000000000000000000371409460000000000000000000000493815280000000000000000000000375289700000000000000000000000492301030000000000000000000000379213660000000000000000000000490791420000000000000000000000383181700000000000000000000000489286450000000000000000000000387194430000000000000000000000487786090000000000000000000000391252390000000000000000000000486290330000000000000000000000395355940000000000000000000000484799150000000000000000000000399505740000000000000000000000483312550000000000000000000000403702340000000000000000000000481830510000000000000,
    131550630000000000000000000000711678910000000000000000000000132145540000000000000000000000709496600000000000000000000000132757660000000000000000000000707320980000000000000000000000133387350000000000000000000000705152030000000000000000000000134034970000000000000000000000702989730000000000000000000000134700840000000000000000000000700834070000000000000000000000135385320000000000000000000000698685010000000000000000000000136088730000000000000000000000696542550000000000000000000000136811390000000000000000000000694406650000000000000000000000137553620000000000000000000000692277300000000000000000000000138315740000000000000000000000690154490000000000000000000000139098010000000000000000000000688038180000000000000000000000139900760000000000000000000000685928360000000000000000000000140724260000000000000000000000683825010000000000000000000000141568740000000000000000000000681728110000000000000000000000142434490000000000000000000000679637640000000000000000000000143321740000000000000000000000677553590000000000000000000000144230710000000000000000000000675475920000000000000000000000145161630000000000000000000000673404620000000000000000000000146114710000000000000000000000671339680000000000000000000000147090100000000000000000000000669281060000000000000000000000148088010000000000000000000000667228760000000000000000000000149108620000000000000000000000665182750000000000000000000000150152030000000000000000000000663143020000000000000000000000151218420000000000000000000000661109540000000000000000000000152307910000000000000000000000659082300000000000000000000000153420590000000000000000000000657061270000000000000000000000154556600000000000000000000000655046440000000000000000000000155716020000000000000000000000653037790000000000000000000000156898910000000000000000000000651035300000000000000000000000158105380000000000000000000000649038940000000000000000000000159335490000000000000000000000647048710000000000000000000000160589270000000000000000000000645064590000000000000000000000161866790000000000000000000000643086550000000000000000000000163168120000000000000000000000641114570000000000000000000000164493240000000000000000000000639148640000000000000000000000165842220000000000000000000000637188740000000000000000000000167215120000000000000000000000635234840000000000000000000000168611900000000000000000000000633286940000000000000000000000170032630000000000000000000000631345010000000000000000000000171477340000000000000000000000629409040000000000000000000000172946020000000000000000000000627479010000000000000000000000174438710000000000000000000000625554890000000000000000000000175955460000000000000000000000623636670000000000000000000000177496240000000000000000000000621724330000000000000000000000179061120000000000000000000000619817860000000000000000000000180650130000000000000000000000617917240000000000000000000000182263260000000000000000000000616022440000000000000000000000183900590000000000000000000000614133450000000000000000000000185562160000000000000000000000612250260000000000000000000000187247980000000000000000000000610372840000000000000000000000188958130000000000000000000000608501170000000000000000000000190692680000000000000000000000606635250000000000000000000000192451630000000000000000000000604775050000000000000000000000194235100000000000000000000000602920550000000000000000000000196043170000000000000000000000601071740000000000000000000000197875870000000000000000000000599228600000000000000000000000199733320000000000000000000000597391110000000000000000000000201615640000000000000000000000595559250000000000000000000000203522850000000000000000000000593733010000000000000000000000205455130000000000000000000000591912370000000000000000000000207412580000000000000000000000590097320000000000000000000000209395280000000000000000000000588287830000000000000000000000211403400000000000000000000000586483890000000000000,
    115797050000000000000000000000866255250000000000000000000000115848360000000000000000000000863598950000000000000000000000115903210000000000000000000000860950780000000000000000000000115961670000000000000000000000858310740000000000000000000000116023830000000000000000000000855678800000000000000000000000116089720000000000000000000000853054920000000000000000000000116159420000000000000000000000850439090000000000000000000000116232970000000000000000000000847831280000000000000000000000116310420000000000000000000000845231470000000000000000000000116391810000000000000000000000842639630000000000000000000000116477210000000000000000000000840055740000000000000000000000116566660000000000000000000000837479770000000000000000000000116660200000000000000000000000834911700000000000000000000000116757920000000000000000000000832351500000000000000000000000116859890000000000000000000000829799160000000000000000000000116966210000000000000000000000827254640000000000000000000000117077000000000000000000000000824717930000000000000000000000117192380000000000000000000000822188990000000000000000000000117312510000000000000000000000819667810000000000000000000000117437550000000000000000000000817154360000000000000000000000117567690000000000000000000000814648610000000000000000000000117703100000000000000000000000812150560000000000000000000000117843990000000000000000000000809660160000000000000000000000117990560000000000000000000000807177390000000000000000000000118143000000000000000000000000804702240000000000000000000000118301530000000000000000000000802234680000000000000000000000118466340000000000000000000000799774690000000000000000000000118637620000000000000000000000797322240000000000000000000000118815570000000000000000000000794877310000000000000000000000119000400000000000000000000000792439880000000000000000000000119192270000000000000000000000790009920000000000000000000000119391400000000000000000000000787587410000000000000000000000119597970000000000000000000000785172330000000000000000000000119812180000000000000000000000782764660000000000000000000000120034220000000000000000000000780364370000000000000000000000120264300000000000000000000000777971440000000000000000000000120502610000000000000000000000775585850000000000000000000000120749370000000000000000000000773207570000000000000000000000121004800000000000000000000000770836590000000000000000000000121269100000000000000000000000768472880000000000000000000000121542520000000000000000000000766116410000000000000000000000121825290000000000000000000000763767170000000000000000000000122117630000000000000000000000761425140000000000000000000000122419810000000000000000000000759090280000000000000000000000122732070000000000000000000000756762590000000000000000000000123054680000000000000000000000754442030000000000000000000000123387920000000000000000000000752128590000000000000000000000123732050000000000000000000000749822240000000000000000000000124087360000000000000000000000747522970000000000000000000000124454140000000000000000000000745230740000000000000000000000124832700000000000000000000000742945550000000000000000000000125223330000000000000000000000740667360000000000000000000000125626360000000000000000000000738396160000000000000000000000126042100000000000000000000000736131920000000000000000000000126470870000000000000000000000733874630000000000000000000000126913010000000000000000000000731624260000000000000000000000127368870000000000000000000000729380790000000000000000000000127838750000000000000000000000727144190000000000000000000000128323030000000000000000000000724914460000000000000000000000128822060000000000000000000000722691560000000000000000000000129336170000000000000000000000720475480000000000000000000000129865730000000000000000000000718266200000000000000000000000130411090000000000000000000000716063690000000000000000000000130972600000000000000000000000713867930000000000000,
    116525910000000000000000000001054405500000000000000000000000116493970000000000000000000001051172300000000000000000000000116461720000000000000000000001047948900000000000000000000000116429220000000000000000000001044735500000000000000000000000116396480000000000000000000001041531900000000000000000000000116363550000000000000000000001038338100000000000000000000000116330470000000000000000000001035154100000000000000000000000116297260000000000000000000001031979900000000000000000000000116263970000000000000000000001028815400000000000000000000000116230640000000000000000000001025660600000000000000000000000116197310000000000000000000001022515500000000000000000000000116164010000000000000000000001019380000000000000000000000000116130800000000000000000000001016254200000000000000000000000116097700000000000000000000001013137900000000000000000000000116064760000000000000000000001010031200000000000000000000000116032020000000000000000000001006934000000000000000000000000115999530000000000000000000001003846300000000000000000000000115967340000000000000000000001000768100000000000000000000000115935480000000000000000000000997699300000000000000000000000115904000000000000000000000000994639930000000000000000000000115872950000000000000000000000991589940000000000000000000000115842370000000000000000000000988549300000000000000000000000115812320000000000000000000000985517990000000000000000000000115782850000000000000000000000982495970000000000000000000000115753990000000000000000000000979483220000000000000000000000115725810000000000000000000000976479700000000000000000000000115698350000000000000000000000973485400000000000000000000000115671670000000000000000000000970500280000000000000000000000115645820000000000000000000000967524310000000000000000000000115620860000000000000000000000964557470000000000000000000000115596830000000000000000000000961599730000000000000000000000115573800000000000000000000000958651050000000000000000000000115551810000000000000000000000955711420000000000000000000000115530940000000000000000000000952780800000000000000000000000115511240000000000000000000000949859170000000000000000000000115492760000000000000000000000946946500000000000000000000000115475570000000000000000000000944042760000000000000000000000115459730000000000000000000000941147920000000000000000000000115445300000000000000000000000938261960000000000000000000000115432340000000000000000000000935384850000000000000000000000115420930000000000000000000000932516560000000000000000000000115411120000000000000000000000929657070000000000000000000000115402990000000000000000000000926806340000000000000000000000115396590000000000000000000000923964360000000000000000000000115392010000000000000000000000921131090000000000000000000000115389300000000000000000000000918306510000000000000000000000115388550000000000000000000000915490590000000000000000000000115389820000000000000000000000912683310000000000000000000000115393190000000000000000000000909884630000000000000000000000115398740000000000000000000000907094540000000000000000000000115406530000000000000000000000904313000000000000000000000000115416650000000000000000000000901539990000000000000000000000115429180000000000000000000000898775480000000000000000000000115444190000000000000000000000896019450000000000000000000000115461770000000000000000000000893271880000000000000000000000115482000000000000000000000000890532720000000000000000000000115504960000000000000000000000887801970000000000000000000000115530740000000000000000000000885079590000000000000000000000115559410000000000000000000000882365560000000000000000000000115591070000000000000000000000879659850000000000000000000000115625800000000000000000000000876962440000000000000000000000115663680000000000000000000000874273300000000000000000000000115704800000000000000000000000871592410000000000000000000000115749230000000000000000000000868919730000000000000,
    116748320000000000000000000001283421900000000000000000000000116785330000000000000000000001279486400000000000000000000000116820770000000000000000000001275563000000000000000000000000116854670000000000000000000001271651500000000000000000000000116887030000000000000000000001267752100000000000000000000000116917850000000000000000000001263864600000000000000000000000116947160000000000000000000001259989100000000000000000000000116974950000000000000000000001256125400000000000000000000000117001230000000000000000000001252273600000000000000000000000117026010000000000000000000001248433600000000000000000000000117049320000000000000000000001244605400000000000000000000000117071140000000000000000000001240788900000000000000000000000117091500000000000000000000001236984100000000000000000000000117110410000000000000000000001233191000000000000000000000000117127870000000000000000000001229409500000000000000000000000117143900000000000000000000001225639600000000000000000000000117158520000000000000000000001221881300000000000000000000000117171730000000000000000000001218134500000000000000000000000117183550000000000000000000001214399100000000000000000000000117194000000000000000000000001210675300000000000000000000000117203070000000000000000000001206962800000000000000000000000117210800000000000000000000001203261800000000000000000000000117217190000000000000000000001199572100000000000000000000000117222260000000000000000000001195893700000000000000000000000117226020000000000000000000001192226500000000000000000000000117228490000000000000000000001188570700000000000000000000000117229690000000000000000000001184926000000000000000000000000117229630000000000000000000001181292500000000000000000000000117228320000000000000000000001177670200000000000000000000000117225790000000000000000000001174058900000000000000000000000117222060000000000000000000001170458800000000000000000000000117217130000000000000000000001166869600000000000000000000000117211030000000000000000000001163291500000000000000000000000117203770000000000000000000001159724400000000000000000000000117195380000000000000000000001156168200000000000000000000000117185870000000000000000000001152622900000000000000000000000117175270000000000000000000001149088400000000000000000000000117163590000000000000000000001145564800000000000000000000000117150860000000000000000000001142052000000000000000000000000117137090000000000000000000001138550000000000000000000000000117122300000000000000000000001135058700000000000000000000000117106520000000000000000000001131578200000000000000000000000117089770000000000000000000001128108300000000000000000000000117072070000000000000000000001124649000000000000000000000000117053450000000000000000000001121200400000000000000000000000117033920000000000000000000001117762300000000000000000000000117013520000000000000000000001114334700000000000000000000000116992260000000000000000000001110917700000000000000000000000116970170000000000000000000001107511200000000000000000000000116947280000000000000000000001104115100000000000000000000000116923610000000000000000000001100729400000000000000000000000116899180000000000000000000001097354100000000000000000000000116874030000000000000000000001093989100000000000000000000000116848180000000000000000000001090634500000000000000000000000116821660000000000000000000001087290100000000000000000000000116794490000000000000000000001083956000000000000000000000000116766710000000000000000000001080632200000000000000000000000116738340000000000000000000001077318500000000000000000000000116709420000000000000000000001074015000000000000000000000000116679970000000000000000000001070721600000000000000000000000116650020000000000000000000001067438300000000000000000000000116619610000000000000000000001064165100000000000000000000000116588770000000000000000000001060901900000000000000000000000116557520000000000000000000001057648700000000000000,
    110865780000000000000000000001562180600000000000000000000000111048710000000000000000000001557390300000000000000000000000111238210000000000000000000001552614700000000000000000000000111436860000000000000000000001547853700000000000000000000000111649770000000000000000000001543107300000000000000000000000111884810000000000000000000001538375500000000000000000000000112152160000000000000000000001533658200000000000000000000000112472760000000000000000000001528955300000000000000000000000112891790000000000000000000001524266900000000000000000000000113483740000000000000000000001519592900000000000000000000000114496160000000000000000000001514933100000000000000000000000116432460000000000000000000001510287700000000000000000000000122138440000000000000000000001505656500000000000000000000000163027000000000000000000000001501039500000000000000000000000222307910000000000000000000001496436700000000000000000000000233916130000000000000000000001491848000000000000000000000000179666630000000000000000000001487273400000000000000000000000126134460000000000000000000001482712700000000000000000000000116182500000000000000000000001478166100000000000000000000000115154010000000000000000000001473633400000000000000000000000114692390000000000000000000001469114600000000000000000000000114463640000000000000000000001464609700000000000000000000000114344850000000000000000000001460118600000000000000000000000114299200000000000000000000001455641200000000000000000000000114297710000000000000000000001451177600000000000000000000000114322200000000000000000000001446727700000000000000000000000114364840000000000000000000001442291400000000000000000000000114420120000000000000000000001437868700000000000000000000000114483250000000000000000000001433459600000000000000000000000114552000000000000000000000001429064000000000000000000000000114624880000000000000000000001424681900000000000000000000000114700110000000000000000000001420313200000000000000000000000114776920000000000000000000001415957900000000000000000000000114854820000000000000000000001411616000000000000000000000000114932980000000000000000000001407287400000000000000000000000115011090000000000000000000001402972000000000000000000000000115089010000000000000000000001398669900000000000000000000000115166250000000000000000000001394381000000000000000000000000115242700000000000000000000001390105200000000000000000000000115318340000000000000000000001385842600000000000000000000000115392840000000000000000000001381593000000000000000000000000115466170000000000000000000001377356500000000000000000000000115538370000000000000000000001373132900000000000000000000000115609180000000000000000000001368922300000000000000000000000115678610000000000000000000001364724600000000000000000000000115746760000000000000000000001360539800000000000000000000000115813330000000000000000000001356367800000000000000000000000115878430000000000000000000001352208600000000000000000000000115942260000000000000000000001348062100000000000000000000000116004510000000000000000000001343928400000000000000000000000116065060000000000000000000001339807300000000000000000000000116123950000000000000000000001335698900000000000000000000000116181440000000000000000000001331603100000000000000000000000116237440000000000000000000001327519800000000000000000000000116291760000000000000000000001323449100000000000000000000000116344530000000000000000000001319390800000000000000000000000116395750000000000000000000001315345000000000000000000000000116445340000000000000000000001311311600000000000000000000000116493360000000000000000000001307290600000000000000000000000116539810000000000000000000001303281800000000000000000000000116584650000000000000000000001299285400000000000000000000000116627930000000000000000000001295301300000000000000000000000116669640000000000000000000001291329300000000000000000000000116709760000000000000000000001287369600000000000000,
    97762992000000000000000000001901485600000000000000000000000097998840000000000000000000001895654800000000000000000000000098234474000000000000000000001889841900000000000000000000000098469824000000000000000000001884046800000000000000000000000098704827000000000000000000001878269600000000000000000000000098939389000000000000000000001872510000000000000000000000000099173454000000000000000000001866768100000000000000000000000099406976000000000000000000001861043800000000000000000000000099639871000000000000000000001855337000000000000000000000000099872096000000000000000000001849647800000000000000000000000100103620000000000000000000001843975900000000000000000000000100334350000000000000000000001838321500000000000000000000000100564280000000000000000000001832684500000000000000000000000100793360000000000000000000001827064700000000000000000000000101021530000000000000000000001821462100000000000000000000000101248760000000000000000000001815876700000000000000000000000101475030000000000000000000001810308500000000000000000000000101700280000000000000000000001804757300000000000000000000000101924480000000000000000000001799223100000000000000000000000102147630000000000000000000001793706000000000000000000000000102369650000000000000000000001788205700000000000000000000000102590520000000000000000000001782722300000000000000000000000102810270000000000000000000001777255700000000000000000000000103028780000000000000000000001771805900000000000000000000000103246080000000000000000000001766372800000000000000000000000103462200000000000000000000001760956300000000000000000000000103677030000000000000000000001755556500000000000000000000000103890530000000000000000000001750173200000000000000000000000104102700000000000000000000001744806400000000000000000000000104313600000000000000000000001739456100000000000000000000000104523150000000000000000000001734122200000000000000000000000104731290000000000000000000001728804600000000000000000000000104938080000000000000000000001723503400000000000000000000000105143490000000000000000000001718218400000000000000000000000105347460000000000000000000001712949600000000000000000000000105550020000000000000000000001707697000000000000000000000000105751150000000000000000000001702460400000000000000000000000105950820000000000000000000001697240000000000000000000000000106149040000000000000000000001692035500000000000000000000000106345810000000000000000000001686847000000000000000000000000106541090000000000000000000001681674400000000000000000000000106734920000000000000000000001676517700000000000000000000000106927270000000000000000000001671376800000000000000000000000107118140000000000000000000001666251600000000000000000000000107307550000000000000000000001661142200000000000000000000000107495510000000000000000000001656048400000000000000000000000107682000000000000000000000001650970200000000000000000000000107867060000000000000000000001645907700000000000000000000000108050710000000000000000000001640860600000000000000000000000108232950000000000000000000001635829000000000000000000000000108413840000000000000000000001630812900000000000000000000000108593410000000000000000000001625812100000000000000000000000108771700000000000000000000001620826700000000000000000000000108948790000000000000000000001615856500000000000000000000000109124750000000000000000000001610901600000000000000000000000109299670000000000000000000001605961900000000000000000000000109473690000000000000000000001601037400000000000000000000000109646980000000000000000000001596127900000000000000000000000109819680000000000000000000001591233500000000000000000000000109992110000000000000000000001586354100000000000000000000000110164590000000000000000000001581489700000000000000000000000110337470000000000000000000001576640100000000000000000000000110511430000000000000000000001571805500000000000000000000000110687240000000000000000000001566985700000000000000,
    83880999000000000000000000002314487400000000000000000000000084017899000000000000000000002307390200000000000000000000000084160449000000000000000000002300314700000000000000000000000084308673000000000000000000002293261000000000000000000000000084462601000000000000000000002286228900000000000000000000000084622284000000000000000000002279218300000000000000000000000084787841000000000000000000002272229300000000000000000000000084959429000000000000000000002265261700000000000000000000000085137240000000000000000000002258315400000000000000000000000085321608000000000000000000002251390400000000000000000000000085512967000000000000000000002244486700000000000000000000000085711841000000000000000000002237604200000000000000000000000085919064000000000000000000002230742700000000000000000000000086135766000000000000000000002223902300000000000000000000000086363322000000000000000000002217082900000000000000000000000086603899000000000000000000002210284400000000000000000000000086860654000000000000000000002203506700000000000000000000000087137549000000000000000000002196749800000000000000000000000087441022000000000000000000002190013600000000000000000000000087781713000000000000000000002183298100000000000000000000000088173552000000000000000000002176603200000000000000000000000088641152000000000000000000002169928800000000000000000000000089235203000000000000000000002163274900000000000000000000000090023655000000000000000000002156641300000000000000000000000091146269000000000000000000002150028200000000000000000000000093094961000000000000000000002143435300000000000000000000000100297540000000000000000000002136862600000000000000000000000146013720000000000000000000002130310000000000000000000000000193785660000000000000000000002123777600000000000000000000000199434870000000000000000000002117265200000000000000000000000163847000000000000000000000002110772800000000000000000000000117365130000000000000000000002104300200000000000000000000000101815560000000000000000000002097847500000000000000000000000097046770000000000000000000002091414700000000000000000000000094653519000000000000000000002085001500000000000000000000000093578530000000000000000000002078608000000000000000000000000093045534000000000000000000002072234100000000000000000000000092791188000000000000000000002065879700000000000000000000000092688281000000000000000000002059544900000000000000000000000092679022000000000000000000002053229400000000000000000000000092735370000000000000000000002046933300000000000000000000000092835414000000000000000000002040656600000000000000000000000092966237000000000000000000002034399100000000000000000000000093120280000000000000000000002028160700000000000000000000000093291484000000000000000000002021941500000000000000000000000093475691000000000000000000002015741400000000000000000000000093670225000000000000000000002009560300000000000000000000000093872878000000000000000000002003398100000000000000000000000094081948000000000000000000001997254800000000000000000000000094296284000000000000000000001991130400000000000000000000000094514915000000000000000000001985024700000000000000000000000094737010000000000000000000001978937800000000000000000000000094961997000000000000000000001972869500000000000000000000000095189383000000000000000000001966819900000000000000000000000095418705000000000000000000001960788800000000000000000000000095649641000000000000000000001954776200000000000000000000000095881913000000000000000000001948782000000000000000000000000096115230000000000000000000001942806200000000000000000000000096349395000000000000000000001936848700000000000000000000000096584233000000000000000000001930909500000000000000000000000096819547000000000000000000001924988500000000000000000000000097055203000000000000000000001919085700000000000000000000000097291085000000000000000000001913200900000000000000000000000097527046000000000000000000001907334300000000000000,
    87047876000000000000000000002817193000000000000000000000000086867336000000000000000000002808554300000000000000000000000086687769000000000000000000002799942100000000000000000000000086509388000000000000000000002791356300000000000000000000000086332406000000000000000000002782796800000000000000000000000086157032000000000000000000002774263600000000000000000000000085983470000000000000000000002765756500000000000000000000000085811925000000000000000000002757275500000000000000000000000085642595000000000000000000002748820500000000000000000000000085475677000000000000000000002740391500000000000000000000000085311363000000000000000000002731988200000000000000000000000085149844000000000000000000002723610800000000000000000000000084991306000000000000000000002715259100000000000000000000000084835932000000000000000000002706932900000000000000000000000084683901000000000000000000002698632300000000000000000000000084535389000000000000000000002690357100000000000000000000000084390569000000000000000000002682107400000000000000000000000084249609000000000000000000002673882900000000000000000000000084112673000000000000000000002665683600000000000000000000000083979923000000000000000000002657509500000000000000000000000083851515000000000000000000002649360400000000000000000000000083727601000000000000000000002641236400000000000000000000000083608329000000000000000000002633137200000000000000000000000083493843000000000000000000002625062900000000000000000000000083384280000000000000000000002617013300000000000000000000000083279774000000000000000000002608988500000000000000000000000083180453000000000000000000002600988200000000000000000000000083086441000000000000000000002593012400000000000000000000000082997854000000000000000000002585061200000000000000000000000082914804000000000000000000002577134300000000000000000000000082837396000000000000000000002569231700000000000000000000000082765731000000000000000000002561353300000000000000000000000082699901000000000000000000002553499100000000000000000000000082639993000000000000000000002545669000000000000000000000000082586086000000000000000000002537862900000000000000000000000082538255000000000000000000002530080700000000000000000000000082496564000000000000000000002522322400000000000000000000000082461074000000000000000000002514587900000000000000000000000082431837000000000000000000002506877100000000000000000000000082408896000000000000000000002499190000000000000000000000000082392291000000000000000000002491526400000000000000000000000082382053000000000000000000002483886300000000000000000000000082378203000000000000000000002476269600000000000000000000000082380761000000000000000000002468676300000000000000000000000082389734000000000000000000002461106300000000000000000000000082405125000000000000000000002453559500000000000000000000000082426931000000000000000000002446035900000000000000000000000082455142000000000000000000002438535300000000000000000000000082489739000000000000000000002431057700000000000000000000000082530703000000000000000000002423603000000000000000000000000082578005000000000000000000002416171200000000000000000000000082631610000000000000000000002408762200000000000000000000000082691483000000000000000000002401375900000000000000000000000082757580000000000000000000002394012300000000000000000000000082829853000000000000000000002386671200000000000000000000000082908257000000000000000000002379352700000000000000000000000082992739000000000000000000002372056600000000000000000000000083083241000000000000000000002364782800000000000000000000000083179714000000000000000000002357531400000000000000000000000083282102000000000000000000002350302200000000000000000000000083390348000000000000000000002343095200000000000000000000000083504406000000000000000000002335910200000000000000000000000083624229000000000000000000002328747400000000000000000000000083749768000000000000000000002321606400000000000000,
    91013072000000000000000000003429086100000000000000000000000091158242000000000000000000003418571100000000000000000000000091296519000000000000000000003408088300000000000000000000000091427790000000000000000000003397637600000000000000000000000091551945000000000000000000003387219000000000000000000000000091668884000000000000000000003376832400000000000000000000000091778512000000000000000000003366477600000000000000000000000091880742000000000000000000003356154500000000000000000000000091975495000000000000000000003345863100000000000000000000000092062702000000000000000000003335603300000000000000000000000092142299000000000000000000003325374900000000000000000000000092214233000000000000000000003315177900000000000000000000000092278459000000000000000000003305012100000000000000000000000092334943000000000000000000003294877600000000000000000000000092383658000000000000000000003284774100000000000000000000000092424590000000000000000000003274701500000000000000000000000092457730000000000000000000003264659900000000000000000000000092483084000000000000000000003254649100000000000000000000000092500666000000000000000000003244668900000000000000000000000092510500000000000000000000003234719400000000000000000000000092512620000000000000000000003224800400000000000000000000000092507071000000000000000000003214911800000000000000000000000092493910000000000000000000003205053500000000000000000000000092473201000000000000000000003195225400000000000000000000000092445020000000000000000000003185427500000000000000000000000092409453000000000000000000003175659600000000000000000000000092366597000000000000000000003165921700000000000000000000000092316557000000000000000000003156213600000000000000000000000092259448000000000000000000003146535300000000000000000000000092195396000000000000000000003136886700000000000000000000000092124535000000000000000000003127267700000000000000000000000092047008000000000000000000003117678100000000000000000000000091962968000000000000000000003108118000000000000000000000000091872573000000000000000000003098587200000000000000000000000091775992000000000000000000003089085600000000000000000000000091673402000000000000000000003079613100000000000000000000000091564984000000000000000000003070169700000000000000000000000091450930000000000000000000003060755300000000000000000000000091331434000000000000000000003051369700000000000000000000000091206699000000000000000000003042012900000000000000000000000091076933000000000000000000003032684800000000000000000000000090942348000000000000000000003023385300000000000000000000000090803163000000000000000000003014114300000000000000000000000090659598000000000000000000003004871800000000000000000000000090511880000000000000000000002995657500000000000000000000000090360237000000000000000000002986471600000000000000000000000090204900000000000000000000002977313800000000000000000000000090046105000000000000000000002968184100000000000000000000000089884085000000000000000000002959082400000000000000000000000089719080000000000000000000002950008500000000000000000000000089551328000000000000000000002940962600000000000000000000000089381069000000000000000000002931944300000000000000000000000089208543000000000000000000002922953700000000000000000000000089033988000000000000000000002913990700000000000000000000000088857647000000000000000000002905055200000000000000000000000088679757000000000000000000002896147000000000000000000000000088500556000000000000000000002887266200000000000000000000000088320282000000000000000000002878412600000000000000000000000088139171000000000000000000002869586200000000000000000000000087957456000000000000000000002860786800000000000000000000000087775370000000000000000000002852014400000000000000000000000087593142000000000000000000002843268900000000000000000000000087411001000000000000000000002834550300000000000000000000000087229171000000000000000000002825858300000000000000,
    74135985000000000000000000004173882100000000000000000000000074426208000000000000000000004161083200000000000000000000000074717517000000000000000000004148323600000000000000000000000075009861000000000000000000004135603000000000000000000000000075303185000000000000000000004122921500000000000000000000000075597433000000000000000000004110278900000000000000000000000075892547000000000000000000004097675000000000000000000000000076188464000000000000000000004085109800000000000000000000000076485122000000000000000000004072583100000000000000000000000076782453000000000000000000004060094800000000000000000000000077080388000000000000000000004047644900000000000000000000000077378855000000000000000000004035233100000000000000000000000077677780000000000000000000004022859300000000000000000000000077977083000000000000000000004010523500000000000000000000000078276686000000000000000000003998225500000000000000000000000078576504000000000000000000003985965300000000000000000000000078876450000000000000000000003973742600000000000000000000000079176436000000000000000000003961557400000000000000000000000079476368000000000000000000003949409600000000000000000000000079776152000000000000000000003937299000000000000000000000000080075688000000000000000000003925225600000000000000000000000080374874000000000000000000003913189200000000000000000000000080673605000000000000000000003901189700000000000000000000000080971774000000000000000000003889227000000000000000000000000081269269000000000000000000003877300900000000000000000000000081565976000000000000000000003865411500000000000000000000000081861777000000000000000000003853558500000000000000000000000082156551000000000000000000003841741800000000000000000000000082450175000000000000000000003829961400000000000000000000000082742521000000000000000000003818217100000000000000000000000083033461000000000000000000003806508800000000000000000000000083322860000000000000000000003794836500000000000000000000000083610584000000000000000000003783199900000000000000000000000083896494000000000000000000003771599000000000000000000000000084180447000000000000000000003760033600000000000000000000000084462301000000000000000000003748503800000000000000000000000084741907000000000000000000003737009300000000000000000000000085019118000000000000000000003725550000000000000000000000000085293780000000000000000000003714125900000000000000000000000085565741000000000000000000003702736800000000000000000000000085834844000000000000000000003691382600000000000000000000000086100931000000000000000000003680063300000000000000000000000086363842000000000000000000003668778600000000000000000000000086623416000000000000000000003657528600000000000000000000000086879490000000000000000000003646313000000000000000000000000087131900000000000000000000003635131900000000000000000000000087380480000000000000000000003623985000000000000000000000000087625066000000000000000000003612872400000000000000000000000087865490000000000000000000003601793700000000000000000000000088101586000000000000000000003590749100000000000000000000000088333187000000000000000000003579738300000000000000000000000088560128000000000000000000003568761300000000000000000000000088782242000000000000000000003557818000000000000000000000000088999364000000000000000000003546908200000000000000000000000089211332000000000000000000003536031900000000000000000000000089417982000000000000000000003525188900000000000000000000000089619155000000000000000000003514379200000000000000000000000089814694000000000000000000003503602600000000000000000000000090004442000000000000000000003492859000000000000000000000000090188248000000000000000000003482148500000000000000000000000090365963000000000000000000003471470700000000000000000000000090537442000000000000000000003460825700000000000000000000000090702543000000000000000000003450213300000000000000000000000090861130000000000000000000003439633500000000000000,
    58888278000000000000000000005080447500000000000000000000000059072582000000000000000000005064868700000000000000000000000059258486000000000000000000005049337600000000000000000000000059446000000000000000000000005033854200000000000000000000000059635135000000000000000000005018418300000000000000000000000059825902000000000000000000005003029700000000000000000000000060018312000000000000000000004987688200000000000000000000000060212376000000000000000000004972393900000000000000000000000060408104000000000000000000004957146400000000000000000000000060605505000000000000000000004941945700000000000000000000000060804590000000000000000000004926791600000000000000000000000061005369000000000000000000004911683900000000000000000000000061207851000000000000000000004896622600000000000000000000000061412044000000000000000000004881607500000000000000000000000061617958000000000000000000004866638400000000000000000000000061825601000000000000000000004851715200000000000000000000000062034982000000000000000000004836837800000000000000000000000062246109000000000000000000004822006000000000000000000000000062458989000000000000000000004807219600000000000000000000000062673629000000000000000000004792478600000000000000000000000062890038000000000000000000004777782900000000000000000000000063108222000000000000000000004763132100000000000000000000000063328188000000000000000000004748526400000000000000000000000063549945000000000000000000004733965400000000000000000000000063773501000000000000000000004719449000000000000000000000000063998867000000000000000000004704977200000000000000000000000064226057000000000000000000004690549700000000000000000000000064455092000000000000000000004676166500000000000000000000000064686010000000000000000000004661827300000000000000000000000064918901000000000000000000004647532200000000000000000000000065154211000000000000000000004633280900000000000000000000000065393579000000000000000000004619073300000000000000000000000065636698000000000000000000004604909200000000000000000000000065881234000000000000000000004590788600000000000000000000000066128109000000000000000000004576711300000000000000000000000066375732000000000000000000004562677200000000000000000000000066619169000000000000000000004548686000000000000000000000000066854373000000000000000000004534737800000000000000000000000067094905000000000000000000004520832400000000000000000000000067343627000000000000000000004506969600000000000000000000000067595182000000000000000000004493149300000000000000000000000067848760000000000000000000004479371400000000000000000000000068104207000000000000000000004465635700000000000000000000000068361465000000000000000000004451942200000000000000000000000068620501000000000000000000004438290600000000000000000000000068881283000000000000000000004424681000000000000000000000000069143786000000000000000000004411113000000000000000000000000069407991000000000000000000004397586600000000000000000000000069673875000000000000000000004384101800000000000000000000000069941419000000000000000000004370658200000000000000000000000070210600000000000000000000004357255900000000000000000000000070481397000000000000000000004343894700000000000000000000000070753785000000000000000000004330574500000000000000000000000071027741000000000000000000004317295100000000000000000000000071303238000000000000000000004304056500000000000000000000000071580247000000000000000000004290858400000000000000000000000071858741000000000000000000004277700800000000000000000000000072138687000000000000000000004264583500000000000000000000000072420052000000000000000000004251506500000000000000000000000072702803000000000000000000004238469600000000000000000000000072986903000000000000000000004225472600000000000000000000000073272312000000000000000000004212515500000000000000000000000073558991000000000000000000004199598200000000000000000000000073846897000000000000000000004186720400000000000000,
    49862372000000000000000000006183918500000000000000000000000049969459000000000000000000006164955900000000000000000000000050077396000000000000000000006146051600000000000000000000000050186193000000000000000000006127205100000000000000000000000050295860000000000000000000006108416500000000000000000000000050406407000000000000000000006089685500000000000000000000000050517844000000000000000000006071011900000000000000000000000050630181000000000000000000006052395600000000000000000000000050743428000000000000000000006033836400000000000000000000000050857596000000000000000000006015334100000000000000000000000050972695000000000000000000005996888500000000000000000000000051088735000000000000000000005978499500000000000000000000000051205727000000000000000000005960166900000000000000000000000051323682000000000000000000005941890500000000000000000000000051442610000000000000000000005923670100000000000000000000000051562523000000000000000000005905505600000000000000000000000051683431000000000000000000005887396800000000000000000000000051805345000000000000000000005869343500000000000000000000000051928276000000000000000000005851345600000000000000000000000052052235000000000000000000005833402900000000000000000000000052177234000000000000000000005815515200000000000000000000000052303285000000000000000000005797682400000000000000000000000052430397000000000000000000005779904200000000000000000000000052558584000000000000000000005762180600000000000000000000000052687856000000000000000000005744511300000000000000000000000052818225000000000000000000005726896100000000000000000000000052949702000000000000000000005709335000000000000000000000000053082301000000000000000000005691827800000000000000000000000053216032000000000000000000005674374200000000000000000000000053350907000000000000000000005656974200000000000000000000000053486939000000000000000000005639627500000000000000000000000053624139000000000000000000005622334000000000000000000000000053762519000000000000000000005605093500000000000000000000000053902092000000000000000000005587905900000000000000000000000054042870000000000000000000005570771000000000000000000000000054184865000000000000000000005553688600000000000000000000000054328090000000000000000000005536658700000000000000000000000054472556000000000000000000005519680900000000000000000000000054618277000000000000000000005502755200000000000000000000000054765265000000000000000000005485881400000000000000000000000054913531000000000000000000005469059400000000000000000000000055063089000000000000000000005452288900000000000000000000000055213952000000000000000000005435569900000000000000000000000055366131000000000000000000005418902100000000000000000000000055519639000000000000000000005402285400000000000000000000000055674489000000000000000000005385719700000000000000000000000055830694000000000000000000005369204800000000000000000000000055988266000000000000000000005352740500000000000000000000000056147218000000000000000000005336326800000000000000000000000056307562000000000000000000005319963300000000000000000000000056469311000000000000000000005303650000000000000000000000000056632478000000000000000000005287386800000000000000000000000056797074000000000000000000005271173400000000000000000000000056963113000000000000000000005255009700000000000000000000000057130608000000000000000000005238895600000000000000000000000057299569000000000000000000005222830900000000000000000000000057470011000000000000000000005206815500000000000000000000000057641944000000000000000000005190849200000000000000000000000057815382000000000000000000005174931900000000000000000000000057990337000000000000000000005159063300000000000000000000000058166820000000000000000000005143243400000000000000000000000058344844000000000000000000005127472000000000000000000000000058524420000000000000000000005111749000000000000000000000000058705561000000000000000000005096074200000000000000,
    44400867000000000000000000007527062800000000000000000000000044469728000000000000000000007503981700000000000000000000000044538995000000000000000000007480971300000000000000000000000044608674000000000000000000007458031400000000000000000000000044678769000000000000000000007435161900000000000000000000000044749284000000000000000000007412362500000000000000000000000044820225000000000000000000007389633100000000000000000000000044891595000000000000000000007366973300000000000000000000000044963401000000000000000000007344383000000000000000000000000045035647000000000000000000007321862000000000000000000000000045108337000000000000000000007299410100000000000000000000000045181478000000000000000000007277027000000000000000000000000045255074000000000000000000007254712500000000000000000000000045329130000000000000000000007232466500000000000000000000000045403652000000000000000000007210288600000000000000000000000045478645000000000000000000007188178800000000000000000000000045554114000000000000000000007166136800000000000000000000000045630065000000000000000000007144162400000000000000000000000045706504000000000000000000007122255300000000000000000000000045783436000000000000000000007100415500000000000000000000000045860867000000000000000000007078642600000000000000000000000045938802000000000000000000007056936400000000000000000000000046017248000000000000000000007035296900000000000000000000000046096210000000000000000000007013723600000000000000000000000046175695000000000000000000006992216600000000000000000000000046255708000000000000000000006970775500000000000000000000000046336256000000000000000000006949400100000000000000000000000046417345000000000000000000006928090300000000000000000000000046498981000000000000000000006906845800000000000000000000000046581170000000000000000000006885666500000000000000000000000046663920000000000000000000006864552100000000000000000000000046747236000000000000000000006843502400000000000000000000000046831125000000000000000000006822517300000000000000000000000046915595000000000000000000006801596600000000000000000000000047000651000000000000000000006780740000000000000000000000000047086300000000000000000000006759947400000000000000000000000047172551000000000000000000006739218500000000000000000000000047259409000000000000000000006718553200000000000000000000000047346881000000000000000000006697951200000000000000000000000047434976000000000000000000006677412500000000000000000000000047523700000000000000000000006656936700000000000000000000000047613060000000000000000000006636523700000000000000000000000047703065000000000000000000006616173200000000000000000000000047793721000000000000000000006595885200000000000000000000000047885037000000000000000000006575659400000000000000000000000047977020000000000000000000006555495700000000000000000000000048069677000000000000000000006535393700000000000000000000000048163017000000000000000000006515353400000000000000000000000048257049000000000000000000006495374600000000000000000000000048351779000000000000000000006475457000000000000000000000000048447216000000000000000000006455600500000000000000000000000048543368000000000000000000006435804900000000000000000000000048640244000000000000000000006416069900000000000000000000000048737852000000000000000000006396395500000000000000000000000048836201000000000000000000006376781500000000000000000000000048935299000000000000000000006357227500000000000000000000000049035155000000000000000000006337733600000000000000000000000049135778000000000000000000006318299400000000000000000000000049237177000000000000000000006298924800000000000000000000000049339361000000000000000000006279609600000000000000000000000049442338000000000000000000006260353600000000000000000000000049546119000000000000000000006241156700000000000000000000000049650712000000000000000000006222018700000000000000000000000049756126000000000000000000006202939300000000000000,
    40671590000000000000000000009161937600000000000000000000000040721566000000000000000000009133843200000000000000000000000040771757000000000000000000009105834900000000000000000000000040822166000000000000000000009077912600000000000000000000000040872793000000000000000000009050075800000000000000000000000040923642000000000000000000009022324400000000000000000000000040974713000000000000000000008994658100000000000000000000000041026008000000000000000000008967076700000000000000000000000041077531000000000000000000008939579800000000000000000000000041129282000000000000000000008912167200000000000000000000000041181264000000000000000000008884838700000000000000000000000041233478000000000000000000008857594000000000000000000000000041285927000000000000000000008830432900000000000000000000000041338613000000000000000000008803355000000000000000000000000041391538000000000000000000008776360200000000000000000000000041444705000000000000000000008749448100000000000000000000000041498115000000000000000000008722618600000000000000000000000041551770000000000000000000008695871300000000000000000000000041605674000000000000000000008669206100000000000000000000000041659828000000000000000000008642622600000000000000000000000041714234000000000000000000008616120600000000000000000000000041768896000000000000000000008589699900000000000000000000000041823815000000000000000000008563360300000000000000000000000041878994000000000000000000008537101300000000000000000000000041934435000000000000000000008510923000000000000000000000000041990142000000000000000000008484824800000000000000000000000042046115000000000000000000008458806700000000000000000000000042102359000000000000000000008432868400000000000000000000000042158876000000000000000000008407009700000000000000000000000042215668000000000000000000008381230200000000000000000000000042272738000000000000000000008355529800000000000000000000000042330089000000000000000000008329908200000000000000000000000042387724000000000000000000008304365100000000000000000000000042445645000000000000000000008278900400000000000000000000000042503855000000000000000000008253513800000000000000000000000042562358000000000000000000008228205000000000000000000000000042621157000000000000000000008202973800000000000000000000000042680253000000000000000000008177820000000000000000000000000042739651000000000000000000008152743300000000000000000000000042799353000000000000000000008127743500000000000000000000000042859363000000000000000000008102820400000000000000000000000042919684000000000000000000008077973700000000000000000000000042980318000000000000000000008053203200000000000000000000000043041270000000000000000000008028508600000000000000000000000043102543000000000000000000008003889800000000000000000000000043164139000000000000000000007979346500000000000000000000000043226063000000000000000000007954878400000000000000000000000043288318000000000000000000007930485300000000000000000000000043350906000000000000000000007906167100000000000000000000000043413833000000000000000000007881923400000000000000000000000043477102000000000000000000007857754100000000000000000000000043540715000000000000000000007833658900000000000000000000000043604678000000000000000000007809637500000000000000000000000043668993000000000000000000007785689800000000000000000000000043733664000000000000000000007761815600000000000000000000000043798696000000000000000000007738014600000000000000000000000043864093000000000000000000007714286500000000000000000000000043929857000000000000000000007690631200000000000000000000000043995994000000000000000000007667048500000000000000000000000044062507000000000000000000007643538000000000000000000000000044129401000000000000000000007620099700000000000000000000000044196680000000000000000000007596733200000000000000000000000044264347000000000000000000007573438400000000000000000000000044332408000000000000000000007550215000000000000000,
    37855297000000000000000000011151906000000000000000000000000037894264000000000000000000011117710000000000000000000000000037933373000000000000000000011083618000000000000000000000000037972625000000000000000000011049631000000000000000000000000038012021000000000000000000011015748000000000000000000000000038051561000000000000000000010981969000000000000000000000000038091245000000000000000000010948294000000000000000000000000038131075000000000000000000010914722000000000000000000000000038171051000000000000000000010881253000000000000000000000000038211175000000000000000000010847886000000000000000000000000038251446000000000000000000010814622000000000000000000000000038291865000000000000000000010781460000000000000000000000000038332434000000000000000000010748399000000000000000000000000038373152000000000000000000010715440000000000000000000000000038414022000000000000000000010682582000000000000000000000000038455043000000000000000000010649824000000000000000000000000038496216000000000000000000010617168000000000000000000000000038537542000000000000000000010584611000000000000000000000000038579023000000000000000000010552154000000000000000000000000038620658000000000000000000010519796000000000000000000000000038662449000000000000000000010487538000000000000000000000000038704397000000000000000000010455379000000000000000000000000038746503000000000000000000010423318000000000000000000000000038788766000000000000000000010391356000000000000000000000000038831190000000000000000000010359492000000000000000000000000038873773000000000000000000010327725000000000000000000000000038916518000000000000000000010296056000000000000000000000000038959425000000000000000000010264484000000000000000000000000039002495000000000000000000010233008000000000000000000000000039045730000000000000000000010201630000000000000000000000000039089130000000000000000000010170347000000000000000000000000039132696000000000000000000010139161000000000000000000000000039176429000000000000000000010108070000000000000000000000000039220331000000000000000000010077074000000000000000000000000039264403000000000000000000010046173000000000000000000000000039308645000000000000000000010015367000000000000000000000000039353059000000000000000000009984656100000000000000000000000039397646000000000000000000009954038900000000000000000000000039442407000000000000000000009923515600000000000000000000000039487344000000000000000000009893085800000000000000000000000039532456000000000000000000009862749400000000000000000000000039577747000000000000000000009832506000000000000000000000000039623216000000000000000000009802355400000000000000000000000039668866000000000000000000009772297200000000000000000000000039714697000000000000000000009742331200000000000000000000000039760711000000000000000000009712457000000000000000000000000039806909000000000000000000009682674500000000000000000000000039853292000000000000000000009652983300000000000000000000000039899863000000000000000000009623383100000000000000000000000039946621000000000000000000009593873700000000000000000000000039993569000000000000000000009564454800000000000000000000000040040708000000000000000000009535126100000000000000000000000040088040000000000000000000009505887400000000000000000000000040135565000000000000000000009476738300000000000000000000000040183286000000000000000000009447678600000000000000000000000040231204000000000000000000009418707900000000000000000000000040279320000000000000000000009389826200000000000000000000000040327636000000000000000000009361033000000000000000000000000040376155000000000000000000009332328000000000000000000000000040424876000000000000000000009303711200000000000000000000000040473802000000000000000000009275182000000000000000000000000040522935000000000000000000009246740400000000000000000000000040572276000000000000000000009218385900000000000000000000000040621827000000000000000000009190118400000000000000,
    35634917000000000000000000013574096000000000000000000000000035665703000000000000000000013532472000000000000000000000000035696609000000000000000000013490975000000000000000000000000035727633000000000000000000013449606000000000000000000000000035758777000000000000000000013408364000000000000000000000000035790041000000000000000000013367248000000000000000000000000035821424000000000000000000013326259000000000000000000000000035852927000000000000000000013285395000000000000000000000000035884551000000000000000000013244656000000000000000000000000035916294000000000000000000013204042000000000000000000000000035948158000000000000000000013163553000000000000000000000000035980143000000000000000000013123188000000000000000000000000036012248000000000000000000013082947000000000000000000000000036044475000000000000000000013042829000000000000000000000000036076823000000000000000000013002834000000000000000000000000036109292000000000000000000012962962000000000000000000000000036141883000000000000000000012923212000000000000000000000000036174595000000000000000000012883584000000000000000000000000036207430000000000000000000012844077000000000000000000000000036240387000000000000000000012804692000000000000000000000000036273467000000000000000000012765427000000000000000000000000036306670000000000000000000012726283000000000000000000000000036339995000000000000000000012687259000000000000000000000000036373444000000000000000000012648354000000000000000000000000036407017000000000000000000012609569000000000000000000000000036440714000000000000000000012570902000000000000000000000000036474534000000000000000000012532355000000000000000000000000036508480000000000000000000012493925000000000000000000000000036542550000000000000000000012455613000000000000000000000000036576745000000000000000000012417419000000000000000000000000036611065000000000000000000012379342000000000000000000000000036645511000000000000000000012341382000000000000000000000000036680083000000000000000000012303538000000000000000000000000036714782000000000000000000012265810000000000000000000000000036749607000000000000000000012228198000000000000000000000000036784559000000000000000000012190701000000000000000000000000036819639000000000000000000012153319000000000000000000000000036854846000000000000000000012116052000000000000000000000000036890182000000000000000000012078899000000000000000000000000036925646000000000000000000012041860000000000000000000000000036961239000000000000000000012004934000000000000000000000000036996961000000000000000000011968122000000000000000000000000037032813000000000000000000011931423000000000000000000000000037068795000000000000000000011894836000000000000000000000000037104907000000000000000000011858361000000000000000000000000037141151000000000000000000011821998000000000000000000000000037177526000000000000000000011785747000000000000000000000000037214032000000000000000000011749607000000000000000000000000037250671000000000000000000011713578000000000000000000000000037287443000000000000000000011677659000000000000000000000000037324348000000000000000000011641850000000000000000000000000037361387000000000000000000011606151000000000000000000000000037398560000000000000000000011570562000000000000000000000000037435868000000000000000000011535082000000000000000000000000037473310000000000000000000011499710000000000000000000000000037510889000000000000000000011464447000000000000000000000000037548604000000000000000000011429292000000000000000000000000037586456000000000000000000011394245000000000000000000000000037624445000000000000000000011359306000000000000000000000000037662572000000000000000000011324473000000000000000000000000037700838000000000000000000011289747000000000000000000000000037739242000000000000000000011255128000000000000000000000000037777787000000000000000000011220615000000000000000000000000037816471000000000000000000011186208000000000000000,
    33909629000000000000000000016522383000000000000000000000000033932870000000000000000000016471719000000000000000000000000033956230000000000000000000016421209000000000000000000000000033979710000000000000000000016370855000000000000000000000000034003309000000000000000000016320655000000000000000000000000034027027000000000000000000016270609000000000000000000000000034050864000000000000000000016220716000000000000000000000000034074820000000000000000000016170976000000000000000000000000034098895000000000000000000016121389000000000000000000000000034123088000000000000000000016071954000000000000000000000000034147400000000000000000000016022671000000000000000000000000034171831000000000000000000015973539000000000000000000000000034196379000000000000000000015924557000000000000000000000000034221046000000000000000000015875725000000000000000000000000034245831000000000000000000015827044000000000000000000000000034270734000000000000000000015778511000000000000000000000000034295755000000000000000000015730128000000000000000000000000034320895000000000000000000015681892000000000000000000000000034346151000000000000000000015633805000000000000000000000000034371526000000000000000000015585865000000000000000000000000034397018000000000000000000015538072000000000000000000000000034422629000000000000000000015490426000000000000000000000000034448356000000000000000000015442926000000000000000000000000034474201000000000000000000015395571000000000000000000000000034500164000000000000000000015348362000000000000000000000000034526244000000000000000000015301297000000000000000000000000034552442000000000000000000015254377000000000000000000000000034578756000000000000000000015207600000000000000000000000000034605189000000000000000000015160967000000000000000000000000034631738000000000000000000015114477000000000000000000000000034658405000000000000000000015068130000000000000000000000000034685189000000000000000000015021925000000000000000000000000034712090000000000000000000014975861000000000000000000000000034739108000000000000000000014929939000000000000000000000000034766244000000000000000000014884157000000000000000000000000034793496000000000000000000014838516000000000000000000000000034820866000000000000000000014793015000000000000000000000000034848353000000000000000000014747653000000000000000000000000034875957000000000000000000014702430000000000000000000000000034903679000000000000000000014657346000000000000000000000000034931518000000000000000000014612401000000000000000000000000034959473000000000000000000014567593000000000000000000000000034987546000000000000000000014522922000000000000000000000000035015737000000000000000000014478389000000000000000000000000035044044000000000000000000014433992000000000000000000000000035072469000000000000000000014389731000000000000000000000000035101012000000000000000000014345606000000000000000000000000035129672000000000000000000014301617000000000000000000000000035158449000000000000000000014257762000000000000000000000000035187344000000000000000000014214041000000000000000000000000035216356000000000000000000014170455000000000000000000000000035245486000000000000000000014127002000000000000000000000000035274734000000000000000000014083683000000000000000000000000035304099000000000000000000014040496000000000000000000000000035333582000000000000000000013997442000000000000000000000000035363184000000000000000000013954520000000000000000000000000035392903000000000000000000013911730000000000000000000000000035422740000000000000000000013869070000000000000000000000000035452696000000000000000000013826542000000000000000000000000035482770000000000000000000013784144000000000000000000000000035512962000000000000000000013741876000000000000000000000000035543273000000000000000000013699737000000000000000000000000035573702000000000000000000013657728000000000000000000000000035604250000000000000000000013615848000000000000000,
    32678953000000000000000000020111038000000000000000000000000032694138000000000000000000020049369000000000000000000000000032709458000000000000000000019987889000000000000000000000000032724911000000000000000000019926597000000000000000000000000032740498000000000000000000019865494000000000000000000000000032756217000000000000000000019804578000000000000000000000000032772070000000000000000000019743849000000000000000000000000032788056000000000000000000019683305000000000000000000000000032804173000000000000000000019622948000000000000000000000000032820423000000000000000000019562776000000000000000000000000032836804000000000000000000019502788000000000000000000000000032853317000000000000000000019442984000000000000000000000000032869960000000000000000000019383364000000000000000000000000032886735000000000000000000019323926000000000000000000000000032903639000000000000000000019264671000000000000000000000000032920674000000000000000000019205597000000000000000000000000032937839000000000000000000019146704000000000000000000000000032955134000000000000000000019087992000000000000000000000000032972557000000000000000000019029460000000000000000000000000032990110000000000000000000018971108000000000000000000000000033007792000000000000000000018912935000000000000000000000000033025602000000000000000000018854939000000000000000000000000033043540000000000000000000018797122000000000000000000000000033061606000000000000000000018739482000000000000000000000000033079800000000000000000000018682019000000000000000000000000033098122000000000000000000018624732000000000000000000000000033116570000000000000000000018567621000000000000000000000000033135146000000000000000000018510684000000000000000000000000033153848000000000000000000018453923000000000000000000000000033172677000000000000000000018397335000000000000000000000000033191631000000000000000000018340921000000000000000000000000033210712000000000000000000018284680000000000000000000000000033229919000000000000000000018228611000000000000000000000000033249251000000000000000000018172715000000000000000000000000033268708000000000000000000018116989000000000000000000000000033288290000000000000000000018061435000000000000000000000000033307997000000000000000000018006051000000000000000000000000033327828000000000000000000017950837000000000000000000000000033347784000000000000000000017895792000000000000000000000000033367864000000000000000000017840916000000000000000000000000033388068000000000000000000017786208000000000000000000000000033408395000000000000000000017731668000000000000000000000000033428846000000000000000000017677295000000000000000000000000033449421000000000000000000017623089000000000000000000000000033470118000000000000000000017569049000000000000000000000000033490938000000000000000000017515175000000000000000000000000033511881000000000000000000017461466000000000000000000000000033532946000000000000000000017407921000000000000000000000000033554134000000000000000000017354541000000000000000000000000033575444000000000000000000017301325000000000000000000000000033596876000000000000000000017248272000000000000000000000000033618429000000000000000000017195381000000000000000000000000033640104000000000000000000017142653000000000000000000000000033661901000000000000000000017090086000000000000000000000000033683819000000000000000000017037681000000000000000000000000033705857000000000000000000016985436000000000000000000000000033728017000000000000000000016933351000000000000000000000000033750298000000000000000000016881426000000000000000000000000033772699000000000000000000016829661000000000000000000000000033795220000000000000000000016778054000000000000000000000000033817862000000000000000000016726605000000000000000000000000033840624000000000000000000016675314000000000000000000000000033863506000000000000000000016624181000000000000000000000000033886507000000000000000000016573204000000000000000,
    32003193000000000000000000024479146000000000000000000000000032008987000000000000000000024404083000000000000000000000000032014942000000000000000000024329249000000000000000000000000032021057000000000000000000024254646000000000000000000000000032027331000000000000000000024180270000000000000000000000000032033766000000000000000000024106123000000000000000000000000032040358000000000000000000024032204000000000000000000000000032047110000000000000000000023958511000000000000000000000000032054019000000000000000000023885044000000000000000000000000032061085000000000000000000023811802000000000000000000000000032068308000000000000000000023738785000000000000000000000000032075688000000000000000000023665992000000000000000000000000032083223000000000000000000023593422000000000000000000000000032090914000000000000000000023521074000000000000000000000000032098760000000000000000000023448949000000000000000000000000032106760000000000000000000023377044000000000000000000000000032114914000000000000000000023305360000000000000000000000000032123222000000000000000000023233896000000000000000000000000032131683000000000000000000023162651000000000000000000000000032140297000000000000000000023091624000000000000000000000000032149062000000000000000000023020816000000000000000000000000032157980000000000000000000022950224000000000000000000000000032167049000000000000000000022879849000000000000000000000000032176268000000000000000000022809689000000000000000000000000032185638000000000000000000022739745000000000000000000000000032195157000000000000000000022670016000000000000000000000000032204827000000000000000000022600500000000000000000000000000032214645000000000000000000022531197000000000000000000000000032224612000000000000000000022462107000000000000000000000000032234727000000000000000000022393228000000000000000000000000032244990000000000000000000022324561000000000000000000000000032255400000000000000000000022256104000000000000000000000000032265957000000000000000000022187858000000000000000000000000032276660000000000000000000022119820000000000000000000000000032287510000000000000000000022051991000000000000000000000000032298505000000000000000000021984371000000000000000000000000032309646000000000000000000021916957000000000000000000000000032320931000000000000000000021849750000000000000000000000000032332360000000000000000000021782750000000000000000000000000032343934000000000000000000021715955000000000000000000000000032355651000000000000000000021649364000000000000000000000000032367512000000000000000000021582978000000000000000000000000032379515000000000000000000021516796000000000000000000000000032391661000000000000000000021450816000000000000000000000000032403949000000000000000000021385039000000000000000000000000032416378000000000000000000021319463000000000000000000000000032428949000000000000000000021254088000000000000000000000000032441660000000000000000000021188914000000000000000000000000032454512000000000000000000021123940000000000000000000000000032467504000000000000000000021059165000000000000000000000000032480636000000000000000000020994589000000000000000000000000032493907000000000000000000020930210000000000000000000000000032507318000000000000000000020866029000000000000000000000000032520866000000000000000000020802045000000000000000000000000032534554000000000000000000020738257000000000000000000000000032548379000000000000000000020674665000000000000000000000000032562341000000000000000000020611268000000000000000000000000032576441000000000000000000020548065000000000000000000000000032590678000000000000000000020485056000000000000000000000000032605051000000000000000000020422240000000000000000000000000032619561000000000000000000020359616000000000000000000000000032634206000000000000000000020297185000000000000000000000000032648987000000000000000000020234945000000000000000000000000032663902000000000000000000020172896000000000000000,
    31991838000000000000000000029796006000000000000000000000000031986177000000000000000000029704639000000000000000000000000031980715000000000000000000029613552000000000000000000000000031975450000000000000000000029522744000000000000000000000000031970382000000000000000000029432215000000000000000000000000031965510000000000000000000029341963000000000000000000000000031960834000000000000000000029251988000000000000000000000000031956353000000000000000000029162289000000000000000000000000031952066000000000000000000029072865000000000000000000000000031947973000000000000000000028983715000000000000000000000000031944073000000000000000000028894839000000000000000000000000031940366000000000000000000028806235000000000000000000000000031936850000000000000000000028717903000000000000000000000000031933525000000000000000000028629841000000000000000000000000031930391000000000000000000028542050000000000000000000000000031927447000000000000000000028454528000000000000000000000000031924692000000000000000000028367274000000000000000000000000031922125000000000000000000028280288000000000000000000000000031919747000000000000000000028193569000000000000000000000000031917555000000000000000000028107115000000000000000000000000031915551000000000000000000028020927000000000000000000000000031913732000000000000000000027935003000000000000000000000000031912099000000000000000000027849342000000000000000000000000031910651000000000000000000027763944000000000000000000000000031909387000000000000000000027678808000000000000000000000000031908307000000000000000000027593933000000000000000000000000031907410000000000000000000027509318000000000000000000000000031906695000000000000000000027424963000000000000000000000000031906162000000000000000000027340866000000000000000000000000031905811000000000000000000027257028000000000000000000000000031905640000000000000000000027173446000000000000000000000000031905649000000000000000000027090121000000000000000000000000031905837000000000000000000027007051000000000000000000000000031906204000000000000000000026924236000000000000000000000000031906750000000000000000000026841674000000000000000000000000031907473000000000000000000026759366000000000000000000000000031908373000000000000000000026677311000000000000000000000000031909450000000000000000000026595507000000000000000000000000031910702000000000000000000026513954000000000000000000000000031912131000000000000000000026432650000000000000000000000000031913733000000000000000000026351597000000000000000000000000031915510000000000000000000026270792000000000000000000000000031917461000000000000000000026190234000000000000000000000000031919585000000000000000000026109924000000000000000000000000031921881000000000000000000026029859000000000000000000000000031924349000000000000000000025950041000000000000000000000000031926989000000000000000000025870467000000000000000000000000031929800000000000000000000025791137000000000000000000000000031932780000000000000000000025712050000000000000000000000000031935931000000000000000000025633206000000000000000000000000031939251000000000000000000025554604000000000000000000000000031942739000000000000000000025476243000000000000000000000000031946396000000000000000000025398122000000000000000000000000031950220000000000000000000025320240000000000000000000000000031954211000000000000000000025242598000000000000000000000000031958369000000000000000000025165193000000000000000000000000031962692000000000000000000025088026000000000000000000000000031967181000000000000000000025011095000000000000000000000000031971835000000000000000000024934401000000000000000000000000031976654000000000000000000024857941000000000000000000000000031981636000000000000000000024781716000000000000000000000000031986781000000000000000000024705725000000000000000000000000031992090000000000000000000024629967000000000000000000000000031997561000000000000000000024554441000000000000000,
    32799350000000000000000000036267685000000000000000000000000032779454000000000000000000036156473000000000000000000000000032759808000000000000000000036045602000000000000000000000000032740413000000000000000000035935071000000000000000000000000032721265000000000000000000035824879000000000000000000000000032702365000000000000000000035715024000000000000000000000000032683711000000000000000000035605507000000000000000000000000032665301000000000000000000035496325000000000000000000000000032647135000000000000000000035387478000000000000000000000000032629212000000000000000000035278965000000000000000000000000032611531000000000000000000035170785000000000000000000000000032594090000000000000000000035062936000000000000000000000000032576889000000000000000000034955418000000000000000000000000032559926000000000000000000034848230000000000000000000000000032543201000000000000000000034741371000000000000000000000000032526713000000000000000000034634839000000000000000000000000032510460000000000000000000034528634000000000000000000000000032494443000000000000000000034422754000000000000000000000000032478660000000000000000000034317199000000000000000000000000032463109000000000000000000034211968000000000000000000000000032447792000000000000000000034107060000000000000000000000000032432705000000000000000000034002473000000000000000000000000032417849000000000000000000033898207000000000000000000000000032403223000000000000000000033794261000000000000000000000000032388826000000000000000000033690633000000000000000000000000032374657000000000000000000033587323000000000000000000000000032360716000000000000000000033484330000000000000000000000000032347000000000000000000000033381653000000000000000000000000032333511000000000000000000033279290000000000000000000000000032320246000000000000000000033177242000000000000000000000000032307206000000000000000000033075506000000000000000000000000032294389000000000000000000032974083000000000000000000000000032281794000000000000000000032872970000000000000000000000000032269421000000000000000000032772168000000000000000000000000032257269000000000000000000032671674000000000000000000000000032245338000000000000000000032571489000000000000000000000000032233626000000000000000000032471611000000000000000000000000032222133000000000000000000032372039000000000000000000000000032210857000000000000000000032272773000000000000000000000000032199799000000000000000000032173811000000000000000000000000032188958000000000000000000032075152000000000000000000000000032178332000000000000000000031976796000000000000000000000000032167921000000000000000000031878741000000000000000000000000032157725000000000000000000031780988000000000000000000000000032147742000000000000000000031683534000000000000000000000000032137972000000000000000000031586378000000000000000000000000032128414000000000000000000031489521000000000000000000000000032119067000000000000000000031392961000000000000000000000000032109931000000000000000000031296697000000000000000000000000032101005000000000000000000031200728000000000000000000000000032092289000000000000000000031105053000000000000000000000000032083781000000000000000000031009672000000000000000000000000032075480000000000000000000030914583000000000000000000000000032067387000000000000000000030819785000000000000000000000000032059501000000000000000000030725279000000000000000000000000032051820000000000000000000030631062000000000000000000000000032044344000000000000000000030537134000000000000000000000000032037073000000000000000000030443494000000000000000000000000032030005000000000000000000030350142000000000000000000000000032023140000000000000000000030257075000000000000000000000000032016478000000000000000000030164294000000000000000000000000032010017000000000000000000030071797000000000000000000000000032003758000000000000000000029979584000000000000000000000000031997698000000000000000000029887654000000000000000,
    34618155000000000000000000044145011000000000000000000000000034583774000000000000000000044009643000000000000000000000000034550289000000000000000000043874691000000000000000000000000034517898000000000000000000043740153000000000000000000000000034486882000000000000000000043606027000000000000000000000000034457657000000000000000000043472312000000000000000000000000034430862000000000000000000043339007000000000000000000000000034407509000000000000000000043206111000000000000000000000000034389286000000000000000000043073623000000000000000000000000034379170000000000000000000042941541000000000000000000000000034382812000000000000000000042809864000000000000000000000000034412019000000000000000000042678591000000000000000000000000034494907000000000000000000042547720000000000000000000000000034712551000000000000000000042417251000000000000000000000000035384091000000000000000000042287181000000000000000000000000038849520000000000000000000042157511000000000000000000000000588815340000000000000000000042028238000000000000000000000000039572328000000000000000000041899361000000000000000000000000035426140000000000000000000041770880000000000000000000000000034601444000000000000000000041642793000000000000000000000000034289479000000000000000000041515098000000000000000000000000034127517000000000000000000041387795000000000000000000000000034025082000000000000000000041260883000000000000000000000000033951021000000000000000000041134359000000000000000000000000033892274000000000000000000041008224000000000000000000000000033842581000000000000000000040882475000000000000000000000000033798637000000000000000000040757112000000000000000000000000033758559000000000000000000040632133000000000000000000000000033721210000000000000000000040507538000000000000000000000000033685873000000000000000000040383324000000000000000000000000033652073000000000000000000040259492000000000000000000000000033619488000000000000000000040136039000000000000000000000000033587891000000000000000000040012965000000000000000000000000033557121000000000000000000039890268000000000000000000000000033527058000000000000000000039767948000000000000000000000000033497614000000000000000000039646002000000000000000000000000033468719000000000000000000039524431000000000000000000000000033440323000000000000000000039403232000000000000000000000000033412383000000000000000000039282405000000000000000000000000033384868000000000000000000039161948000000000000000000000000033357750000000000000000000039041861000000000000000000000000033331009000000000000000000038922142000000000000000000000000033304627000000000000000000038802790000000000000000000000000033278590000000000000000000038683804000000000000000000000000033252885000000000000000000038565183000000000000000000000000033227503000000000000000000038446926000000000000000000000000033202434000000000000000000038329031000000000000000000000000033177671000000000000000000038211498000000000000000000000000033153207000000000000000000038094325000000000000000000000000033129038000000000000000000037977512000000000000000000000000033105157000000000000000000037861057000000000000000000000000033081561000000000000000000037744959000000000000000000000000033058246000000000000000000037629216000000000000000000000000033035207000000000000000000037513829000000000000000000000000033012443000000000000000000037398796000000000000000000000000032989950000000000000000000037284115000000000000000000000000032967726000000000000000000037169786000000000000000000000000032945768000000000000000000037055808000000000000000000000000032924074000000000000000000036942179000000000000000000000000032902642000000000000000000036828898000000000000000000000000032881470000000000000000000036715965000000000000000000000000032860556000000000000000000036603379000000000000000000000000032839899000000000000000000036491137000000000000000000000000032819498000000000000000000036379240000000000000000,
    37618504000000000000000000053733288000000000000000000000000037560970000000000000000000053568519000000000000000000000000037503784000000000000000000053404255000000000000000000000000037446946000000000000000000053240495000000000000000000000000037390455000000000000000000053077236000000000000000000000000037334310000000000000000000052914479000000000000000000000000037278509000000000000000000052752221000000000000000000000000037223053000000000000000000052590460000000000000000000000000037167941000000000000000000052429195000000000000000000000000037113171000000000000000000052268425000000000000000000000000037058743000000000000000000052108148000000000000000000000000037004656000000000000000000051948362000000000000000000000000036950910000000000000000000051789066000000000000000000000000036897502000000000000000000051630259000000000000000000000000036844434000000000000000000051471938000000000000000000000000036791704000000000000000000051314103000000000000000000000000036739310000000000000000000051156753000000000000000000000000036687253000000000000000000050999884000000000000000000000000036635532000000000000000000050843497000000000000000000000000036584146000000000000000000050687589000000000000000000000000036533094000000000000000000050532159000000000000000000000000036482375000000000000000000050377206000000000000000000000000036431989000000000000000000050222728000000000000000000000000036381935000000000000000000050068724000000000000000000000000036332213000000000000000000049915192000000000000000000000000036282821000000000000000000049762131000000000000000000000000036233760000000000000000000049609539000000000000000000000000036185027000000000000000000049457415000000000000000000000000036136624000000000000000000049305757000000000000000000000000036088549000000000000000000049154565000000000000000000000000036040801000000000000000000049003836000000000000000000000000035993381000000000000000000048853569000000000000000000000000035946288000000000000000000048703763000000000000000000000000035899520000000000000000000048554417000000000000000000000000035853079000000000000000000048405528000000000000000000000000035806963000000000000000000048257096000000000000000000000000035761173000000000000000000048109120000000000000000000000000035715707000000000000000000047961597000000000000000000000000035670567000000000000000000047814526000000000000000000000000035625751000000000000000000047667906000000000000000000000000035581261000000000000000000047521736000000000000000000000000035537095000000000000000000047376014000000000000000000000000035493255000000000000000000047230739000000000000000000000000035449741000000000000000000047085910000000000000000000000000035406554000000000000000000046941524000000000000000000000000035363694000000000000000000046797581000000000000000000000000035321163000000000000000000046654080000000000000000000000000035278962000000000000000000046511019000000000000000000000000035237094000000000000000000046368396000000000000000000000000035195560000000000000000000046226211000000000000000000000000035154364000000000000000000046084462000000000000000000000000035113508000000000000000000045943147000000000000000000000000035072998000000000000000000045802266000000000000000000000000035032840000000000000000000045661816000000000000000000000000034993038000000000000000000045521798000000000000000000000000034953603000000000000000000045382209000000000000000000000000034914544000000000000000000045243047000000000000000000000000034875873000000000000000000045104313000000000000000000000000034837608000000000000000000044966004000000000000000000000000034799767000000000000000000044828119000000000000000000000000034762378000000000000000000044690657000000000000000000000000034725472000000000000000000044553616000000000000000000000000034689092000000000000000000044416996000000000000000000000000034653295000000000000000000044280795000000000000000,
    42064747000000000000000000065404134000000000000000000000000041983107000000000000000000065203577000000000000000000000000041901873000000000000000000065003635000000000000000000000000041821042000000000000000000064804307000000000000000000000000041740615000000000000000000064605589000000000000000000000000041660590000000000000000000064407481000000000000000000000000041580966000000000000000000064209980000000000000000000000000041501743000000000000000000064013085000000000000000000000000041422920000000000000000000063816793000000000000000000000000041344494000000000000000000063621104000000000000000000000000041266467000000000000000000063426014000000000000000000000000041188836000000000000000000063231523000000000000000000000000041111601000000000000000000063037629000000000000000000000000041034761000000000000000000062844328000000000000000000000000040958315000000000000000000062651621000000000000000000000000040882262000000000000000000062459504000000000000000000000000040806601000000000000000000062267977000000000000000000000000040731332000000000000000000062077037000000000000000000000000040656452000000000000000000061886682000000000000000000000000040581962000000000000000000061696911000000000000000000000000040507861000000000000000000061507722000000000000000000000000040434147000000000000000000061319113000000000000000000000000040360820000000000000000000061131083000000000000000000000000040287879000000000000000000060943629000000000000000000000000040215322000000000000000000060756750000000000000000000000000040143150000000000000000000060570443000000000000000000000000040071360000000000000000000060384709000000000000000000000000039999953000000000000000000060199543000000000000000000000000039928927000000000000000000060014946000000000000000000000000039858282000000000000000000059830915000000000000000000000000039788016000000000000000000059647448000000000000000000000000039718129000000000000000000059464543000000000000000000000000039648619000000000000000000059282199000000000000000000000000039579486000000000000000000059100415000000000000000000000000039510729000000000000000000058919188000000000000000000000000039442348000000000000000000058738517000000000000000000000000039374340000000000000000000058558399000000000000000000000000039306706000000000000000000058378834000000000000000000000000039239444000000000000000000058199820000000000000000000000000039172554000000000000000000058021354000000000000000000000000039106034000000000000000000057843436000000000000000000000000039039884000000000000000000057666064000000000000000000000000038974103000000000000000000057489235000000000000000000000000038908690000000000000000000057312948000000000000000000000000038843644000000000000000000057137202000000000000000000000000038778965000000000000000000056961995000000000000000000000000038714651000000000000000000056787326000000000000000000000000038650701000000000000000000056613192000000000000000000000000038587116000000000000000000056439591000000000000000000000000038523893000000000000000000056266524000000000000000000000000038461032000000000000000000056093986000000000000000000000000038398532000000000000000000055921978000000000000000000000000038336392000000000000000000055750498000000000000000000000000038274612000000000000000000055579543000000000000000000000000038213190000000000000000000055409112000000000000000000000000038152126000000000000000000055239205000000000000000000000000038091419000000000000000000055069818000000000000000000000000038031067000000000000000000054900950000000000000000000000000037971071000000000000000000054732600000000000000000000000000037911429000000000000000000054564767000000000000000000000000037852141000000000000000000054397448000000000000000000000000037793205000000000000000000054230642000000000000000000000000037734620000000000000000000054064348000000000000000000000000037676387000000000000000000053898564000000000000000,
    48176854000000000000000000079609884000000000000000000000000048067221000000000000000000079365766000000000000000000000000047958062000000000000000000079122397000000000000000000000000047849374000000000000000000078879774000000000000000000000000047741157000000000000000000078637895000000000000000000000000047633407000000000000000000078396757000000000000000000000000047526125000000000000000000078156359000000000000000000000000047419308000000000000000000077916699000000000000000000000000047312955000000000000000000077677773000000000000000000000000047207065000000000000000000077439580000000000000000000000000047101638000000000000000000077202117000000000000000000000000046996671000000000000000000076965382000000000000000000000000046892163000000000000000000076729374000000000000000000000000046788114000000000000000000076494089000000000000000000000000046684522000000000000000000076259525000000000000000000000000046581386000000000000000000076025681000000000000000000000000046478704000000000000000000075792554000000000000000000000000046376477000000000000000000075560142000000000000000000000000046274703000000000000000000075328442000000000000000000000000046173380000000000000000000075097453000000000000000000000000046072508000000000000000000074867172000000000000000000000000045972086000000000000000000074637598000000000000000000000000045872112000000000000000000074408727000000000000000000000000045772585000000000000000000074180558000000000000000000000000045673505000000000000000000073953089000000000000000000000000045574870000000000000000000073726317000000000000000000000000045476680000000000000000000073500241000000000000000000000000045378933000000000000000000073274858000000000000000000000000045281628000000000000000000073050166000000000000000000000000045184764000000000000000000072826163000000000000000000000000045088341000000000000000000072602847000000000000000000000000044992357000000000000000000072380216000000000000000000000000044896811000000000000000000072158267000000000000000000000000044801702000000000000000000071936999000000000000000000000000044707029000000000000000000071716410000000000000000000000000044612791000000000000000000071496497000000000000000000000000044518988000000000000000000071277258000000000000000000000000044425618000000000000000000071058691000000000000000000000000044332679000000000000000000070840795000000000000000000000000044240172000000000000000000070623567000000000000000000000000044148095000000000000000000070407005000000000000000000000000044056447000000000000000000070191107000000000000000000000000043965228000000000000000000069975872000000000000000000000000043874435000000000000000000069761296000000000000000000000000043784069000000000000000000069547378000000000000000000000000043694128000000000000000000069334116000000000000000000000000043604611000000000000000000069121508000000000000000000000000043515518000000000000000000068909552000000000000000000000000043426846000000000000000000068698246000000000000000000000000043338596000000000000000000068487588000000000000000000000000043250766000000000000000000068277576000000000000000000000000043163356000000000000000000068068208000000000000000000000000043076364000000000000000000067859481000000000000000000000000042989790000000000000000000067651395000000000000000000000000042903632000000000000000000067443947000000000000000000000000042817889000000000000000000067237136000000000000000000000000042732561000000000000000000067030958000000000000000000000000042647647000000000000000000066825412000000000000000000000000042563145000000000000000000066620497000000000000000000000000042479055000000000000000000066416210000000000000000000000000042395376000000000000000000066212550000000000000000000000000042312106000000000000000000066009514000000000000000000000000042229246000000000000000000065807101000000000000000000000000042146793000000000000000000065605308000000000000000,
    56220543000000000000000000096901115000000000000000000000000056078460000000000000000000096603975000000000000000000000000055936923000000000000000000096307746000000000000000000000000055795932000000000000000000096012426000000000000000000000000055655485000000000000000000095718011000000000000000000000000055515581000000000000000000095424499000000000000000000000000055376219000000000000000000095131886000000000000000000000000055237397000000000000000000094840172000000000000000000000000055099114000000000000000000094549351000000000000000000000000054961368000000000000000000094259423000000000000000000000000054824159000000000000000000093970383000000000000000000000000054687485000000000000000000093682230000000000000000000000000054551345000000000000000000093394960000000000000000000000000054415738000000000000000000093108571000000000000000000000000054280662000000000000000000092823061000000000000000000000000054146116000000000000000000092538426000000000000000000000000054012099000000000000000000092254664000000000000000000000000053878610000000000000000000091971771000000000000000000000000053745647000000000000000000091689747000000000000000000000000053613209000000000000000000091408587000000000000000000000000053481295000000000000000000091128289000000000000000000000000053349905000000000000000000090848851000000000000000000000000053219036000000000000000000090570270000000000000000000000000053088687000000000000000000090292543000000000000000000000000052958859000000000000000000090015667000000000000000000000000052829549000000000000000000089739641000000000000000000000000052700757000000000000000000089464461000000000000000000000000052572481000000000000000000089190125000000000000000000000000052444722000000000000000000088916630000000000000000000000000052317478000000000000000000088643974000000000000000000000000052190749000000000000000000088372154000000000000000000000000052064536000000000000000000088101167000000000000000000000000051938838000000000000000000087831011000000000000000000000000051813656000000000000000000087561684000000000000000000000000051688993000000000000000000087293182000000000000000000000000051564851000000000000000000087025504000000000000000000000000051441236000000000000000000086758647000000000000000000000000051318158000000000000000000086492608000000000000000000000000051195634000000000000000000086227385000000000000000000000000051073692000000000000000000085962975000000000000000000000000050952389000000000000000000085699376000000000000000000000000050831839000000000000000000085436585000000000000000000000000050712303000000000000000000085174600000000000000000000000000050594498000000000000000000084913419000000000000000000000000050480974000000000000000000084653038000000000000000000000000050386977000000000000000000084393456000000000000000000000000050824041000000000000000000084134669000000000000000000000000050268931000000000000000000083876676000000000000000000000000050020307000000000000000000083619475000000000000000000000000049887783000000000000000000083363062000000000000000000000000049766362000000000000000000083107435000000000000000000000000049648057000000000000000000082852592000000000000000000000000049531196000000000000000000082598531000000000000000000000000049415249000000000000000000082345249000000000000000000000000049300009000000000000000000082092743000000000000000000000000049185377000000000000000000081841012000000000000000000000000049071304000000000000000000081590052000000000000000000000000048957760000000000000000000081339863000000000000000000000000048844729000000000000000000081090440000000000000000000000000048732199000000000000000000080841782000000000000000000000000048620162000000000000000000080593887000000000000000000000000048508613000000000000000000080346752000000000000000000000000048397547000000000000000000080100374000000000000000000000000048286962000000000000000000079854752000000000000000,
    66516066000000000000000000117948000000000000000000000000000066335986000000000000000000117586320000000000000000000000000066156548000000000000000000117225750000000000000000000000000065977752000000000000000000116866280000000000000000000000000065799594000000000000000000116507920000000000000000000000000065622075000000000000000000116150660000000000000000000000000065445191000000000000000000115794490000000000000000000000000065268942000000000000000000115439420000000000000000000000000065093326000000000000000000115085430000000000000000000000000064918340000000000000000000114732530000000000000000000000000064743985000000000000000000114380710000000000000000000000000064570257000000000000000000114029970000000000000000000000000064397155000000000000000000113680300000000000000000000000000064224677000000000000000000113331710000000000000000000000000064052823000000000000000000112984190000000000000000000000000063881590000000000000000000112637730000000000000000000000000063710977000000000000000000112292340000000000000000000000000063540982000000000000000000111948000000000000000000000000000063371604000000000000000000111604720000000000000000000000000063202841000000000000000000111262490000000000000000000000000063034691000000000000000000110921310000000000000000000000000062867154000000000000000000110581180000000000000000000000000062700226000000000000000000110242090000000000000000000000000062533907000000000000000000109904040000000000000000000000000062368196000000000000000000109567030000000000000000000000000062203090000000000000000000109231050000000000000000000000000062038589000000000000000000108896100000000000000000000000000061874690000000000000000000108562180000000000000000000000000061711392000000000000000000108229280000000000000000000000000061548693000000000000000000107897410000000000000000000000000061386593000000000000000000107566550000000000000000000000000061225090000000000000000000107236700000000000000000000000000061064181000000000000000000106907870000000000000000000000000060903866000000000000000000106580040000000000000000000000000060744143000000000000000000106253220000000000000000000000000060585010000000000000000000105927410000000000000000000000000060426467000000000000000000105602590000000000000000000000000060268511000000000000000000105278760000000000000000000000000060111141000000000000000000104955940000000000000000000000000059954356000000000000000000104634100000000000000000000000000059798154000000000000000000104313240000000000000000000000000059642534000000000000000000103993370000000000000000000000000059487494000000000000000000103674490000000000000000000000000059333033000000000000000000103356580000000000000000000000000059179149000000000000000000103039640000000000000000000000000059025841000000000000000000102723680000000000000000000000000058873108000000000000000000102408680000000000000000000000000058720948000000000000000000102094650000000000000000000000000058569359000000000000000000101781590000000000000000000000000058418341000000000000000000101469480000000000000000000000000058267891000000000000000000101158330000000000000000000000000058118009000000000000000000100848140000000000000000000000000057968693000000000000000000100538900000000000000000000000000057819941000000000000000000100230600000000000000000000000000057671753000000000000000000099923251000000000000000000000000057524127000000000000000000099616844000000000000000000000000057377061000000000000000000099311376000000000000000000000000057230554000000000000000000099006845000000000000000000000000057084604000000000000000000098703248000000000000000000000000056939211000000000000000000098400582000000000000000000000000056794373000000000000000000098098844000000000000000000000000056650089000000000000000000097798031000000000000000000000000056506357000000000000000000097498140000000000000000000000000056363175000000000000000000097199169000000000000000,
    79458766000000000000000000143566250000000000000000000000000079233807000000000000000000143126010000000000000000000000000079009610000000000000000000142687130000000000000000000000000078786174000000000000000000142249590000000000000000000000000078563496000000000000000000141813390000000000000000000000000078341574000000000000000000141378530000000000000000000000000078120407000000000000000000140945000000000000000000000000000077899992000000000000000000140512810000000000000000000000000077680327000000000000000000140081930000000000000000000000000077461409000000000000000000139652380000000000000000000000000077243238000000000000000000139224150000000000000000000000000077025811000000000000000000138797230000000000000000000000000076809126000000000000000000138371620000000000000000000000000076593181000000000000000000137947310000000000000000000000000076377974000000000000000000137524310000000000000000000000000076163503000000000000000000137102600000000000000000000000000075949766000000000000000000136682180000000000000000000000000075736761000000000000000000136263060000000000000000000000000075524486000000000000000000135845220000000000000000000000000075312939000000000000000000135428660000000000000000000000000075102118000000000000000000135013370000000000000000000000000074892021000000000000000000134599370000000000000000000000000074682646000000000000000000134186630000000000000000000000000074473992000000000000000000133775150000000000000000000000000074266056000000000000000000133364940000000000000000000000000074058837000000000000000000132955990000000000000000000000000073852332000000000000000000132548290000000000000000000000000073646541000000000000000000132141840000000000000000000000000073441460000000000000000000131736640000000000000000000000000073237088000000000000000000131332680000000000000000000000000073033424000000000000000000130929950000000000000000000000000072830466000000000000000000130528470000000000000000000000000072628213000000000000000000130128210000000000000000000000000072426663000000000000000000129729180000000000000000000000000072225817000000000000000000129331380000000000000000000000000072025673000000000000000000128934790000000000000000000000000071826235000000000000000000128539420000000000000000000000000071627509000000000000000000128145270000000000000000000000000071429512000000000000000000127752320000000000000000000000000071232294000000000000000000127360580000000000000000000000000071036042000000000000000000126970030000000000000000000000000070841896000000000000000000126580690000000000000000000000000070692948000000000000000000126192540000000000000000000000000070459503000000000000000000125805580000000000000000000000000070256948000000000000000000125419810000000000000000000000000070062613000000000000000000125035210000000000000000000000000069869678000000000000000000124651800000000000000000000000000069677600000000000000000000124269570000000000000000000000000069486262000000000000000000123888500000000000000000000000000069295626000000000000000000123508610000000000000000000000000069105675000000000000000000123129880000000000000000000000000068916402000000000000000000122752310000000000000000000000000068727801000000000000000000122375900000000000000000000000000068539869000000000000000000122000640000000000000000000000000068352601000000000000000000121626540000000000000000000000000068165997000000000000000000121253580000000000000000000000000067980054000000000000000000120881760000000000000000000000000067794769000000000000000000120511090000000000000000000000000067610141000000000000000000120141550000000000000000000000000067426169000000000000000000119773140000000000000000000000000067242849000000000000000000119405870000000000000000000000000067060181000000000000000000119039720000000000000000000000000066878162000000000000000000118674690000000000000000000000000066696791000000000000000000118310790000000000000000,
    95552470000000000000000000174748770000000000000000000000000095273804000000000000000000174212920000000000000000000000000094996050000000000000000000173678710000000000000000000000000094719205000000000000000000173146140000000000000000000000000094443268000000000000000000172615200000000000000000000000000094168235000000000000000000172085880000000000000000000000000093894105000000000000000000171558200000000000000000000000000093620876000000000000000000171032130000000000000000000000000093348548000000000000000000170507670000000000000000000000000093077123000000000000000000169984820000000000000000000000000092806618000000000000000000169463570000000000000000000000000092537119000000000000000000168943930000000000000000000000000092269854000000000000000000168425870000000000000000000000000092005892000000000000000000167909410000000000000000000000000091733571000000000000000000167394520000000000000000000000000091467165000000000000000000166881220000000000000000000000000091201837000000000000000000166369490000000000000000000000000090937424000000000000000000165859330000000000000000000000000090673895000000000000000000165350740000000000000000000000000090411241000000000000000000164843700000000000000000000000000090149457000000000000000000164338220000000000000000000000000089888537000000000000000000163834290000000000000000000000000089628480000000000000000000163331900000000000000000000000000089369283000000000000000000162831060000000000000000000000000089110942000000000000000000162331750000000000000000000000000088853456000000000000000000161833970000000000000000000000000088596821000000000000000000161337720000000000000000000000000088341036000000000000000000160842990000000000000000000000000088086098000000000000000000160349780000000000000000000000000087832005000000000000000000159858070000000000000000000000000087578753000000000000000000159367880000000000000000000000000087326342000000000000000000158879190000000000000000000000000087074768000000000000000000158392000000000000000000000000000086824029000000000000000000157906300000000000000000000000000086574123000000000000000000157422100000000000000000000000000086325047000000000000000000156939370000000000000000000000000086076799000000000000000000156458130000000000000000000000000085829377000000000000000000155978360000000000000000000000000085582779000000000000000000155500070000000000000000000000000085337198000000000000000000155023240000000000000000000000000085092456000000000000000000154547870000000000000000000000000084848531000000000000000000154073960000000000000000000000000084605421000000000000000000153601500000000000000000000000000084363123000000000000000000153130500000000000000000000000000084121636000000000000000000152660930000000000000000000000000083880957000000000000000000152192810000000000000000000000000083641083000000000000000000151726120000000000000000000000000083402013000000000000000000151260860000000000000000000000000083163744000000000000000000150797030000000000000000000000000082926275000000000000000000150334630000000000000000000000000082689602000000000000000000149873640000000000000000000000000082453724000000000000000000149414060000000000000000000000000082218639000000000000000000148955890000000000000000000000000081984344000000000000000000148499130000000000000000000000000081750837000000000000000000148043770000000000000000000000000081518115000000000000000000147589800000000000000000000000000081286178000000000000000000147137230000000000000000000000000081055022000000000000000000146686040000000000000000000000000080824653000000000000000000146236240000000000000000000000000080595074000000000000000000145787820000000000000000000000000080366271000000000000000000145340770000000000000000000000000080138241000000000000000000144895100000000000000000000000000079910981000000000000000000144450790000000000000000000000000079684490000000000000000000144007840000000000000000,
    115440670000000000000000000212704130000000000000000000000000115096820000000000000000000212051890000000000000000000000000114754080000000000000000000211401650000000000000000000000000114412550000000000000000000210753400000000000000000000000000114578230000000000000000000210107140000000000000000000000000113732460000000000000000000209462860000000000000000000000000113393920000000000000000000208820560000000000000000000000000113056560000000000000000000208180230000000000000000000000000112720290000000000000000000207541860000000000000000000000000112385100000000000000000000206905450000000000000000000000000112050990000000000000000000206270990000000000000000000000000111717930000000000000000000205638470000000000000000000000000111385950000000000000000000205007900000000000000000000000000111055020000000000000000000204379260000000000000000000000000110725150000000000000000000203752540000000000000000000000000110396340000000000000000000203127750000000000000000000000000110068570000000000000000000202504870000000000000000000000000109741860000000000000000000201883910000000000000000000000000109416180000000000000000000201264840000000000000000000000000109091550000000000000000000200647680000000000000000000000000108767960000000000000000000200032410000000000000000000000000108445410000000000000000000199419030000000000000000000000000108123880000000000000000000198807520000000000000000000000000107803390000000000000000000198197890000000000000000000000000107483920000000000000000000197590130000000000000000000000000107165480000000000000000000196984240000000000000000000000000106848060000000000000000000196380200000000000000000000000000106531650000000000000000000195778020000000000000000000000000106216260000000000000000000195177680000000000000000000000000105901880000000000000000000194579180000000000000000000000000105588840000000000000000000193982520000000000000000000000000105277560000000000000000000193387680000000000000000000000000104967280000000000000000000192794670000000000000000000000000104658010000000000000000000192203480000000000000000000000000104349740000000000000000000191614110000000000000000000000000104042460000000000000000000191026530000000000000000000000000103736180000000000000000000190440770000000000000000000000000103430890000000000000000000189856790000000000000000000000000103126590000000000000000000189274610000000000000000000000000102823270000000000000000000188694220000000000000000000000000102520930000000000000000000188115600000000000000000000000000102219580000000000000000000187538760000000000000000000000000101919200000000000000000000186963680000000000000000000000000101619800000000000000000000186390370000000000000000000000000101321370000000000000000000185818820000000000000000000000000101023900000000000000000000185249020000000000000000000000000100727410000000000000000000184680970000000000000000000000000100431870000000000000000000184114660000000000000000000000000100137300000000000000000000183550080000000000000000000000000099843682000000000000000000182987240000000000000000000000000099551020000000000000000000182426120000000000000000000000000099259309000000000000000000181866730000000000000000000000000098968548000000000000000000181309050000000000000000000000000098678734000000000000000000180753080000000000000000000000000098389863000000000000000000180198810000000000000000000000000098101933000000000000000000179646240000000000000000000000000097814942000000000000000000179095370000000000000000000000000097528886000000000000000000178546190000000000000000000000000097243763000000000000000000177998690000000000000000000000000096959571000000000000000000177452870000000000000000000000000096676306000000000000000000176908720000000000000000000000000096393966000000000000000000176366250000000000000000000000000096112549000000000000000000175825430000000000000000000000000095832051000000000000000000175286280000000000000000,
    139882620000000000000000000258903380000000000000000000000000139461410000000000000000000258109470000000000000000000000000139041520000000000000000000257317990000000000000000000000000138622960000000000000000000256528950000000000000000000000000138205720000000000000000000255742320000000000000000000000000137789790000000000000000000254958110000000000000000000000000137375170000000000000000000254176300000000000000000000000000136961870000000000000000000253396880000000000000000000000000136549980000000000000000000252619860000000000000000000000000136139490000000000000000000251845220000000000000000000000000135729740000000000000000000251072950000000000000000000000000135321600000000000000000000250303060000000000000000000000000134914750000000000000000000249535520000000000000000000000000134509200000000000000000000248770340000000000000000000000000134104920000000000000000000248007500000000000000000000000000133701920000000000000000000247247010000000000000000000000000133300190000000000000000000246488840000000000000000000000000132899730000000000000000000245733000000000000000000000000000132500530000000000000000000244979480000000000000000000000000132102590000000000000000000244228270000000000000000000000000131705910000000000000000000243479360000000000000000000000000131310490000000000000000000242732750000000000000000000000000130916310000000000000000000241988430000000000000000000000000130523380000000000000000000241246390000000000000000000000000130131680000000000000000000240506620000000000000000000000000129741230000000000000000000239769130000000000000000000000000129352010000000000000000000239033890000000000000000000000000128964020000000000000000000238300910000000000000000000000000128577260000000000000000000237570180000000000000000000000000128191720000000000000000000236841690000000000000000000000000127807400000000000000000000236115430000000000000000000000000127424300000000000000000000235391400000000000000000000000000127042400000000000000000000234669590000000000000000000000000126661720000000000000000000233950000000000000000000000000000126282240000000000000000000233232610000000000000000000000000125903960000000000000000000232517410000000000000000000000000125526880000000000000000000231804420000000000000000000000000125151000000000000000000000231093610000000000000000000000000124776300000000000000000000230384970000000000000000000000000124402790000000000000000000229678520000000000000000000000000124030470000000000000000000228974220000000000000000000000000123659320000000000000000000228272090000000000000000000000000123289350000000000000000000227572110000000000000000000000000122920550000000000000000000226874280000000000000000000000000122552930000000000000000000226178590000000000000000000000000122186470000000000000000000225485030000000000000000000000000121821170000000000000000000224793590000000000000000000000000121457030000000000000000000224104280000000000000000000000000121094040000000000000000000223417080000000000000000000000000120732210000000000000000000222731990000000000000000000000000120371530000000000000000000222049000000000000000000000000000120011990000000000000000000221368100000000000000000000000000119653590000000000000000000220689290000000000000000000000000119296330000000000000000000220012560000000000000000000000000118940210000000000000000000219337910000000000000000000000000118585220000000000000000000218665330000000000000000000000000118231350000000000000000000217994810000000000000000000000000117878620000000000000000000217326340000000000000000000000000117527000000000000000000000216659930000000000000000000000000117176500000000000000000000215995560000000000000000000000000116827120000000000000000000215333220000000000000000000000000116478850000000000000000000214672920000000000000000000000000116131680000000000000000000214014640000000000000000000000000115785630000000000000000000213358380000000000000000,
    169793400000000000000000000315137080000000000000000000000000169278320000000000000000000314170730000000000000000000000000168764850000000000000000000313207350000000000000000000000000168252980000000000000000000312246920000000000000000000000000167742720000000000000000000311289440000000000000000000000000167234060000000000000000000310334890000000000000000000000000166726990000000000000000000309383270000000000000000000000000166221510000000000000000000308434570000000000000000000000000165717610000000000000000000307488780000000000000000000000000165215280000000000000000000306545890000000000000000000000000164714540000000000000000000305605890000000000000000000000000164215360000000000000000000304668770000000000000000000000000163717740000000000000000000303734530000000000000000000000000163221680000000000000000000302803150000000000000000000000000162727180000000000000000000301874630000000000000000000000000162234230000000000000000000300948950000000000000000000000000161742820000000000000000000300026110000000000000000000000000161252950000000000000000000299106100000000000000000000000000160764620000000000000000000298188920000000000000000000000000160277820000000000000000000297274540000000000000000000000000159792540000000000000000000296362970000000000000000000000000159308790000000000000000000295454200000000000000000000000000158826650000000000000000000294548210000000000000000000000000158345870000000000000000000293645000000000000000000000000000157866600000000000000000000292744560000000000000000000000000157388880000000000000000000291846880000000000000000000000000156912660000000000000000000290951950000000000000000000000000156437930000000000000000000290059770000000000000000000000000155964700000000000000000000289170320000000000000000000000000155492940000000000000000000288283600000000000000000000000000155022670000000000000000000287399600000000000000000000000000154553880000000000000000000286518310000000000000000000000000154086550000000000000000000285639720000000000000000000000000153620690000000000000000000284763830000000000000000000000000153156290000000000000000000283890620000000000000000000000000152693350000000000000000000283020100000000000000000000000000152231870000000000000000000282152230000000000000000000000000151771830000000000000000000281287040000000000000000000000000151313230000000000000000000280424490000000000000000000000000150856080000000000000000000279564590000000000000000000000000150400360000000000000000000278707320000000000000000000000000149946070000000000000000000277852690000000000000000000000000149493210000000000000000000277000670000000000000000000000000149041770000000000000000000276151270000000000000000000000000148591750000000000000000000275304480000000000000000000000000148143150000000000000000000274460270000000000000000000000000147695950000000000000000000273618660000000000000000000000000147250160000000000000000000272779630000000000000000000000000146805770000000000000000000271943170000000000000000000000000146362770000000000000000000271109280000000000000000000000000145921170000000000000000000270277940000000000000000000000000145480960000000000000000000269449150000000000000000000000000145042130000000000000000000268622910000000000000000000000000144604680000000000000000000267799200000000000000000000000000144168610000000000000000000266978010000000000000000000000000143733900000000000000000000266159340000000000000000000000000143300570000000000000000000265343180000000000000000000000000142868600000000000000000000264529530000000000000000000000000142437990000000000000000000263718370000000000000000000000000142008730000000000000000000262909700000000000000000000000000141580820000000000000000000262103500000000000000000000000000141154260000000000000000000261299780000000000000000000000000140729050000000000000000000260498520000000000000000000000000140305170000000000000000000259699730000000000000000,
    206352540000000000000000000383584710000000000000000000000000205723160000000000000000000382408480000000000000000000000000205095740000000000000000000381235850000000000000000000000000204470290000000000000000000380066820000000000000000000000000203846800000000000000000000378901370000000000000000000000000203225260000000000000000000377739500000000000000000000000000202605630000000000000000000376581190000000000000000000000000201987950000000000000000000375426430000000000000000000000000201372210000000000000000000374275210000000000000000000000000200758390000000000000000000373127520000000000000000000000000200146480000000000000000000371983360000000000000000000000000199536490000000000000000000370842700000000000000000000000000198928410000000000000000000369705530000000000000000000000000198322220000000000000000000368571860000000000000000000000000197717930000000000000000000367441660000000000000000000000000197115530000000000000000000366314930000000000000000000000000196515010000000000000000000365191650000000000000000000000000195916370000000000000000000364071820000000000000000000000000195319600000000000000000000362955420000000000000000000000000194724690000000000000000000361842440000000000000000000000000194131640000000000000000000360732880000000000000000000000000193540450000000000000000000359626720000000000000000000000000192951100000000000000000000358523950000000000000000000000000192363590000000000000000000357424560000000000000000000000000191777920000000000000000000356328550000000000000000000000000191194080000000000000000000355235890000000000000000000000000190612070000000000000000000354146590000000000000000000000000190031870000000000000000000353060620000000000000000000000000189453490000000000000000000351977990000000000000000000000000188876920000000000000000000350898670000000000000000000000000188302140000000000000000000349822670000000000000000000000000187729170000000000000000000348749960000000000000000000000000187157980000000000000000000347680550000000000000000000000000186588590000000000000000000346614410000000000000000000000000186020970000000000000000000345551540000000000000000000000000185455120000000000000000000344491940000000000000000000000000184891050000000000000000000343435580000000000000000000000000184328730000000000000000000342382460000000000000000000000000183768180000000000000000000341332570000000000000000000000000183209380000000000000000000340285900000000000000000000000000182652320000000000000000000339242430000000000000000000000000182097010000000000000000000338202170000000000000000000000000181543440000000000000000000337165100000000000000000000000000180994140000000000000000000336131210000000000000000000000000180441480000000000000000000335100490000000000000000000000000179893070000000000000000000334072930000000000000000000000000179346390000000000000000000333048520000000000000000000000000178801410000000000000000000332027250000000000000000000000000178258140000000000000000000331009110000000000000000000000000177716570000000000000000000329994100000000000000000000000000177176700000000000000000000328982190000000000000000000000000176638510000000000000000000327973390000000000000000000000000176102000000000000000000000326967690000000000000000000000000175567180000000000000000000325965060000000000000000000000000175034030000000000000000000324965520000000000000000000000000174502540000000000000000000323969030000000000000000000000000173972720000000000000000000322975610000000000000000000000000173444560000000000000000000321985230000000000000000000000000172918050000000000000000000320997880000000000000000000000000172393180000000000000000000320013570000000000000000000000000171869960000000000000000000319032270000000000000000000000000171348380000000000000000000318053980000000000000000000000000170828430000000000000000000317078690000000000000000000000000170310100000000000000000000316106390000000000000000,
    251021220000000000000000000466899140000000000000000000000000250252190000000000000000000465467430000000000000000000000000249485560000000000000000000464040110000000000000000000000000248721340000000000000000000462617160000000000000000000000000247959490000000000000000000461198580000000000000000000000000247200040000000000000000000459784350000000000000000000000000246442960000000000000000000458374460000000000000000000000000245688250000000000000000000456968880000000000000000000000000244935900000000000000000000455567620000000000000000000000000244185910000000000000000000454170660000000000000000000000000243438270000000000000000000452777980000000000000000000000000242692960000000000000000000451389570000000000000000000000000241949980000000000000000000450005410000000000000000000000000241209330000000000000000000448625510000000000000000000000000240471000000000000000000000447249830000000000000000000000000239734980000000000000000000445878370000000000000000000000000239001250000000000000000000444511120000000000000000000000000238269830000000000000000000443148060000000000000000000000000237540690000000000000000000441789180000000000000000000000000236813830000000000000000000440434460000000000000000000000000236089240000000000000000000439083900000000000000000000000000235366920000000000000000000437737480000000000000000000000000234646860000000000000000000436395190000000000000000000000000233929050000000000000000000435057020000000000000000000000000233213490000000000000000000433722950000000000000000000000000232500160000000000000000000432392970000000000000000000000000231789060000000000000000000431067070000000000000000000000000231080190000000000000000000429745240000000000000000000000000230373530000000000000000000428427450000000000000000000000000229669080000000000000000000427113710000000000000000000000000228966840000000000000000000425804000000000000000000000000000228266790000000000000000000424498300000000000000000000000000227568930000000000000000000423196610000000000000000000000000226873240000000000000000000421898910000000000000000000000000226179760000000000000000000420605190000000000000000000000000225488400000000000000000000419315430000000000000000000000000224799220000000000000000000418029630000000000000000000000000224112200000000000000000000416747780000000000000000000000000223427320000000000000000000415469850000000000000000000000000222744580000000000000000000414195840000000000000000000000000222063980000000000000000000412925740000000000000000000000000221385510000000000000000000411659540000000000000000000000000220709150000000000000000000410397210000000000000000000000000220034910000000000000000000409138760000000000000000000000000219362780000000000000000000407884170000000000000000000000000218692740000000000000000000406633420000000000000000000000000218024800000000000000000000405386510000000000000000000000000217358950000000000000000000404143420000000000000000000000000216695180000000000000000000402904140000000000000000000000000216033480000000000000000000401668670000000000000000000000000215373850000000000000000000400436980000000000000000000000000214716280000000000000000000399209070000000000000000000000000214060770000000000000000000397984930000000000000000000000000213407300000000000000000000396764530000000000000000000000000212755880000000000000000000395547880000000000000000000000000212106490000000000000000000394334970000000000000000000000000211459130000000000000000000393125770000000000000000000000000210813790000000000000000000391920280000000000000000000000000210170470000000000000000000390718480000000000000000000000000209529160000000000000000000389520370000000000000000000000000208889850000000000000000000388325940000000000000000000000000208252540000000000000000000387135160000000000000000000000000207617230000000000000000000385948040000000000000000000000000206983890000000000000000000384764560000000000000000,
    305621180000000000000000000568309430000000000000000000000000304680710000000000000000000566566750000000000000000000000000303743200000000000000000000564829420000000000000000000000000302808650000000000000000000563097410000000000000000000000000301877040000000000000000000561370710000000000000000000000000300948370000000000000000000559649310000000000000000000000000300022620000000000000000000557933190000000000000000000000000299099790000000000000000000556222330000000000000000000000000298179860000000000000000000554516710000000000000000000000000297262830000000000000000000552816330000000000000000000000000296348690000000000000000000551121160000000000000000000000000295437420000000000000000000549431180000000000000000000000000294529020000000000000000000547746390000000000000000000000000293623500000000000000000000546066770000000000000000000000000292720780000000000000000000544392300000000000000000000000000291820930000000000000000000542722960000000000000000000000000290923910000000000000000000541058740000000000000000000000000290029700000000000000000000539399620000000000000000000000000289138310000000000000000000537745590000000000000000000000000288249720000000000000000000536096630000000000000000000000000287363930000000000000000000534452730000000000000000000000000286480910000000000000000000532813870000000000000000000000000285600680000000000000000000531180040000000000000000000000000284723210000000000000000000529551220000000000000000000000000283848490000000000000000000527927390000000000000000000000000282976530000000000000000000526308540000000000000000000000000282107300000000000000000000524694650000000000000000000000000281240800000000000000000000523085710000000000000000000000000280377030000000000000000000521481710000000000000000000000000279515970000000000000000000519882620000000000000000000000000278657610000000000000000000518288440000000000000000000000000277801940000000000000000000516699150000000000000000000000000276948960000000000000000000515114730000000000000000000000000276098660000000000000000000513535170000000000000000000000000275251030000000000000000000511960450000000000000000000000000274406060000000000000000000510390560000000000000000000000000273563730000000000000000000508825490000000000000000000000000272724060000000000000000000507265210000000000000000000000000271887010000000000000000000505709720000000000000000000000000271052690000000000000000000504159000000000000000000000000000270220790000000000000000000502613030000000000000000000000000269391600000000000000000000501071810000000000000000000000000268565010000000000000000000499535310000000000000000000000000267741010000000000000000000498003520000000000000000000000000266919590000000000000000000496476430000000000000000000000000266100750000000000000000000494954020000000000000000000000000265284480000000000000000000493436280000000000000000000000000264470760000000000000000000491923190000000000000000000000000263659600000000000000000000490414750000000000000000000000000262850970000000000000000000488910930000000000000000000000000262044890000000000000000000487411720000000000000000000000000261241320000000000000000000485917110000000000000000000000000260440280000000000000000000484427080000000000000000000000000259641740000000000000000000482941620000000000000000000000000258845710000000000000000000481460710000000000000000000000000258052170000000000000000000479984350000000000000000000000000257261120000000000000000000478512510000000000000000000000000256472540000000000000000000477045190000000000000000000000000255686440000000000000000000475582360000000000000000000000000254902790000000000000000000474124030000000000000000000000000254121600000000000000000000472670160000000000000000000000000253342860000000000000000000471220750000000000000000000000000252566550000000000000000000469775790000000000000000000000000251792680000000000000000000468335260000000000000000,
    372458500000000000000000000691745990000000000000000000000000371305910000000000000000000689624800000000000000000000000000370157000000000000000000000687510120000000000000000000000000369011770000000000000000000685401920000000000000000000000000367870200000000000000000000683300180000000000000000000000000366732290000000000000000000681204890000000000000000000000000365598000000000000000000000679116030000000000000000000000000364467350000000000000000000677033570000000000000000000000000363340300000000000000000000674957500000000000000000000000000362216850000000000000000000672887790000000000000000000000000361096980000000000000000000670824430000000000000000000000000359980690000000000000000000668767400000000000000000000000000358867960000000000000000000666716670000000000000000000000000357758770000000000000000000664672230000000000000000000000000356653130000000000000000000662634060000000000000000000000000355551000000000000000000000660602150000000000000000000000000354452390000000000000000000658576460000000000000000000000000353357270000000000000000000656556980000000000000000000000000352265640000000000000000000654543700000000000000000000000000351177490000000000000000000652536590000000000000000000000000350092790000000000000000000650535630000000000000000000000000349011550000000000000000000648540810000000000000000000000000347933750000000000000000000646552110000000000000000000000000346859370000000000000000000644569510000000000000000000000000345788410000000000000000000642592980000000000000000000000000344720850000000000000000000640622520000000000000000000000000343656690000000000000000000638658100000000000000000000000000342595900000000000000000000636699700000000000000000000000000341538480000000000000000000634747310000000000000000000000000340484420000000000000000000632800900000000000000000000000000339433700000000000000000000630860460000000000000000000000000338386320000000000000000000628925980000000000000000000000000337342260000000000000000000626997420000000000000000000000000336301510000000000000000000625074780000000000000000000000000335264060000000000000000000623158040000000000000000000000000334229890000000000000000000621247170000000000000000000000000333199010000000000000000000619342160000000000000000000000000332171390000000000000000000617442990000000000000000000000000331147030000000000000000000615549650000000000000000000000000330125910000000000000000000613662110000000000000000000000000329108030000000000000000000611780360000000000000000000000000328093360000000000000000000609904380000000000000000000000000327081910000000000000000000608034160000000000000000000000000326073660000000000000000000606169660000000000000000000000000325068600000000000000000000604310890000000000000000000000000324066720000000000000000000602457810000000000000000000000000323068010000000000000000000600610420000000000000000000000000322072450000000000000000000598768700000000000000000000000000321080040000000000000000000596932620000000000000000000000000320090770000000000000000000595102170000000000000000000000000319104620000000000000000000593277330000000000000000000000000318121590000000000000000000591458090000000000000000000000000317141670000000000000000000589644430000000000000000000000000316164840000000000000000000587836320000000000000000000000000315191090000000000000000000586033770000000000000000000000000314220420000000000000000000584236740000000000000000000000000313252810000000000000000000582445220000000000000000000000000312288270000000000000000000580659190000000000000000000000000311326780000000000000000000578878650000000000000000000000000310368320000000000000000000577103560000000000000000000000000309412890000000000000000000575333910000000000000000000000000308460460000000000000000000573569690000000000000000000000000307511040000000000000000000571810880000000000000000000000000306564620000000000000000000570057470000000000000000,
    454556720000000000000000000841992910000000000000000000000000453136980000000000000000000839411000000000000000000000000000451721960000000000000000000836837010000000000000000000000000450311630000000000000000000834270910000000000000000000000000448905980000000000000000000831712680000000000000000000000000447504990000000000000000000829162300000000000000000000000000446108640000000000000000000826619730000000000000000000000000444716910000000000000000000824084960000000000000000000000000443329780000000000000000000821557970000000000000000000000000441947230000000000000000000819038720000000000000000000000000440569230000000000000000000816527200000000000000000000000000439195790000000000000000000814023380000000000000000000000000437826860000000000000000000811527240000000000000000000000000436462440000000000000000000809038750000000000000000000000000435102510000000000000000000806557890000000000000000000000000433747050000000000000000000804084640000000000000000000000000432396040000000000000000000801618980000000000000000000000000431049460000000000000000000799160870000000000000000000000000429707300000000000000000000796710300000000000000000000000000428369540000000000000000000794267250000000000000000000000000427036150000000000000000000791831690000000000000000000000000425707130000000000000000000789403590000000000000000000000000424382460000000000000000000786982950000000000000000000000000423062110000000000000000000784569720000000000000000000000000421746080000000000000000000782163900000000000000000000000000420434340000000000000000000779765450000000000000000000000000419126880000000000000000000777374360000000000000000000000000417823670000000000000000000774990600000000000000000000000000416524720000000000000000000772614140000000000000000000000000415229990000000000000000000770244980000000000000000000000000413939480000000000000000000767883080000000000000000000000000412653160000000000000000000765528420000000000000000000000000411371020000000000000000000763180990000000000000000000000000410093040000000000000000000760840750000000000000000000000000408819210000000000000000000758507690000000000000000000000000407549520000000000000000000756181780000000000000000000000000406283940000000000000000000753863000000000000000000000000000405022460000000000000000000751551340000000000000000000000000403765070000000000000000000749246760000000000000000000000000402511750000000000000000000746949250000000000000000000000000401262480000000000000000000744658790000000000000000000000000400017260000000000000000000742375350000000000000000000000000398776060000000000000000000740098910000000000000000000000000397538860000000000000000000737829450000000000000000000000000396305670000000000000000000735566950000000000000000000000000395076450000000000000000000733311390000000000000000000000000393851200000000000000000000731062740000000000000000000000000392629900000000000000000000728820990000000000000000000000000391412540000000000000000000726586120000000000000000000000000390199090000000000000000000724358090000000000000000000000000388989560000000000000000000722136900000000000000000000000000387783920000000000000000000719922520000000000000000000000000386582150000000000000000000717714940000000000000000000000000385384260000000000000000000715514120000000000000000000000000384190210000000000000000000713320040000000000000000000000000383000000000000000000000000711132700000000000000000000000000381813610000000000000000000708952070000000000000000000000000380631030000000000000000000706778120000000000000000000000000379452250000000000000000000704610830000000000000000000000000378277250000000000000000000702450200000000000000000000000000377106020000000000000000000700296190000000000000000000000000375938540000000000000000000698148780000000000000000000000000374774800000000000000000000696007960000000000000000000000000373614790000000000000000000693873700000000000000000,
    542326130000000000000000001000000000000000000000000000000000540601710000000000000000000996933570000000000000000000000000538883630000000000000000000993876550000000000000000000000000537171850000000000000000000990828900000000000000000000000000535466330000000000000000000987790600000000000000000000000000533767030000000000000000000984761610000000000000000000000000532073910000000000000000000981741910000000000000000000000000530386930000000000000000000978731470000000000000000000000000528706040000000000000000000975730270000000000000000000000000527031210000000000000000000972738260000000000000000000000000525362400000000000000000000969755430000000000000000000000000523699570000000000000000000966781750000000000000000000000000522042680000000000000000000963817180000000000000000000000000520391710000000000000000000960861710000000000000000000000000518746600000000000000000000957915300000000000000000000000000517107340000000000000000000954977920000000000000000000000000515473880000000000000000000952049550000000000000000000000000513846190000000000000000000949130160000000000000000000000000512224240000000000000000000946219730000000000000000000000000510607990000000000000000000943318210000000000000000000000000508997410000000000000000000940425600000000000000000000000000507392470000000000000000000937541850000000000000000000000000505793140000000000000000000934666950000000000000000000000000504199390000000000000000000931800860000000000000000000000000502611190000000000000000000928943560000000000000000000000000501028510000000000000000000926095030000000000000000000000000499451320000000000000000000923255220000000000000000000000000497879580000000000000000000920424130000000000000000000000000496313280000000000000000000917601720000000000000000000000000494752380000000000000000000914787960000000000000000000000000493196850000000000000000000911982830000000000000000000000000491646680000000000000000000909186300000000000000000000000000490101820000000000000000000906398350000000000000000000000000488562260000000000000000000903618950000000000000000000000000487027970000000000000000000900848070000000000000000000000000485498920000000000000000000898085680000000000000000000000000483975080000000000000000000895331770000000000000000000000000482456440000000000000000000892586300000000000000000000000000480942960000000000000000000889849250000000000000000000000000479434620000000000000000000887120590000000000000000000000000477931400000000000000000000884400300000000000000000000000000476433270000000000000000000881688360000000000000000000000000474940210000000000000000000878984720000000000000000000000000473452190000000000000000000876289380000000000000000000000000471969200000000000000000000873602310000000000000000000000000470491200000000000000000000870923470000000000000000000000000469018180000000000000000000868252850000000000000000000000000467550110000000000000000000865590410000000000000000000000000466086970000000000000000000862936140000000000000000000000000464628740000000000000000000860290010000000000000000000000000463175390000000000000000000857652000000000000000000000000000461726910000000000000000000855022070000000000000000000000000460283270000000000000000000852400210000000000000000000000000458844460000000000000000000849786390000000000000000000000000457410440000000000000000000847180580000000000000000000000000455981200000000000000000000844582760000000000000000]
}
