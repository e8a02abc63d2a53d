/// The published table of the O2 noise curve: rows of (frequency * 10^20, amplitude density * 10^44),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 6
  pure val ASD = true
  pure val ROWS = 1000
  pure val CHUNKS: List[int] = [
    1336983741824946570000000000000000000000000000000000000000001330834724654075352000000000000000000000000000000000000000001324713987866116760000000000000000000000000000000000000000001318621401394748460000000000000000000000000000000000000000001312556835771843389000000000000000000000000000000000000000001306520162124721196000000000000000000000000000000000000000001300511252173409282000000000000000000000000000000000000000001294529978227915379000000000000000000000000000000000000000001288576213185518071000000000000000000000000000000000000000001282649830528060519000000000000000000000000000000000000000001276750704319265672000000000000000000000000000000000000000001270878709202058943000000000000000000000000000000000000000001265033720395903138000000000000000000000000000000000000000001259215613694150981000000000000000000000000000000000000000001253424265461400111000000000000000000000000000000000000000001247659552630869761000000000000000000000000000000000000000001241921352701784009000000000000000000000000000000000000000001236209543736768524000000000000000000000000000000000000000001230524004359261525000000000000000000000000000000000000000001224864613750931319000000000000000000000000000000000000000001219231251649110703000000000000000000000000000000000000000001213623798344240612000000000000000000000000000000000000000001208042134677328328000000000000000000000000000000000000000001202486142037412264000000000000000000000000000000000000000001196955702359043450000000000000000000000000000000000000000001191450698119776064000000000000000000000000000000000000000001185971012337669350000000000000000000000000000000000000000001180516528568804979000000000000000000000000000000000000000001175087130904807609000000000000000000000000000000000000000001169682703970385340000000000000000000000000000000000000000001164303132920876749000000000000000000000000000000000000000001158948303439810701000000000000000000000000000000000000000001153618101736477897000000000000000000000000000000000000000001148312414543511117000000000000000000000000000000000000000001143031129114479150000000000000000000000000000000000000000001137774133221491368000000000000000000000000000000000000000001132541315152811556000000000000000000000000000000000000000001127332563710486468000000000000000000000000000000000000000001122147768207980256000000000000000000000000000000000000000001116986818467823106000000000000000000000000000000000000000001111849604819271065000000000000000000000000000000000000000001106736018095973328000000000000000000000000000000000000000001101645949633656407000000000000000000000000000000000000000001096579291267809886000000000000000000000000000000000000000001091535935331391549000000000000000000000000000000000000000001086515774652538369000000000000000000000000000000000000000001081518702552288147000000000000000000000000000000000000000001076544612842315374000000000000000000000000000000000000000001071593399822671167000000000000000000000000000000000000000001066664958279539377000000000000000000000000000000000000000001061759183483000157000000000000000000000000000000000000000001056875971184804008000000000000000000000000000000000000000001052015217616158615000000000000000000000000000000000000000001047176819485520305000000000000000000000000000000000000000001042360673976401664000000000000000000000000000000000000000001037566678745185911000000000000000000000000000000000000000001032794731918951392000000000000000000000000000000000000000001028044732093309221000000000000000000000000000000000000000001023316578330244830000000000000000000000000000000000000000001018610170155975858000000000000000000000000000000000000000001013925407558815373000000000000000000000000000000000000000001009262190987047347000000000000000000000000000000000000000001004620421346812620000000000000000000000000000000000000000001000000000000000000000,
    48965190475164200310000000000001795784647002095724000000000045005427532352256890000000000001787525525904235479000000000060346506729414801400000000000001779304389918577201000000000050306864553406472600000000000001771121064345087603000000000055725399443453989210000000000001762975375287205893000000000055110427672048504030000000000001754867149648151070000000000054548460962600539160000000000001746796215127245588000000000053206332772421675390000000000001738762400216250370000000000052867396683354529550000000000001730765534195725053000000000052289947794310347020000000000001722805447131393919000000000054413010933172492750000000000001714881969870539891000000000055921773365155115800000000000001706994934038407763000000000056624907931715825370000000000001699144172034625910000000000057151303645519375040000000000001691329517029647889000000000057908541441153830530000000000001683550802961202209000000000058471438605974131420000000000001675807864530768043000000000061968274143593998720000000000001668100537200059108000000000060627468813940634310000000000001660428657187529566000000000061242773498614660140000000000001652792061464894857000000000063874325453435597840000000000001645190587753662470000000000064253295467971415240000000000001637624074521688300000000000065603617820943015910000000000001630092360979741173000000000066465818920219466360000000000001622595287078087267000000000069199877642941678060000000000001615132693503090522000000000069934441790551154900000000000001607704421673823703000000000071079785683892738040000000000001600310313738700785000000000071985248288219536040000000000001592950212572123014000000000072981631678453671800000000000001585623961771137225000000000075150044044352987450000000000001578331405652117247000000000076926185969531070240000000000001571072389247450474000000000074494772360609594460000000000001563846758302246975000000000081354813395398509590000000000001556654359271061949000000000079364594406255551820000000000001549495039314631661000000000081619365857768028500000000000001542368646296628221000000000081945883102683656340000000000001535275028780422701000000000087633279689756099950000000000001528214036025870115000000000089060077692396353250000000000001521185517986104863000000000102289483365150111700000000000001514189325304351996000000000093459052961006968460000000000001507225309310756245000000000097366457378134570600000000000001500293322019218323000000000000000000000000000000000000000001493393216124252554000000000000000000000000000000000000000001486524844997857109000000000000000000000000000000000000000001479688062686396322000000000000000000000000000000000000000001472882723907502545000000000000000000000000000000000000000001466108684046984401000000000000000000000000000000000000000001459365799155756882000000000000000000000000000000000000000001452653925946781222000000000000000000000000000000000000000001445972921792019505000000000000000000000000000000000000000001439322644719407229000000000000000000000000000000000000000001432702953409831004000000000000000000000000000000000000000001426113707194128999000000000000000000000000000000000000000001419554766050101513000000000000000000000000000000000000000001413025990599533621000000000000000000000000000000000000000001406527242105237185000000000000000000000000000000000000000001400058382468097484000000000000000000000000000000000000000001393619274224142757000000000000000000000000000000000000000001387209780541620319000000000000000000000000000000000000000001380829765218092398000000000000000000000000000000000000000001374479092677537295000000000000000000000000000000000000000001368157627967471868000000000000000000000000000000000000000001361865236756081998000000000000000000000000000000000000000001355601785329368170000000000000000000000000000000000000000001349367140588306491000000000000000000000000000000000000000001343161170046015940000,
    6290872421921187705000000000002412028207618006803000000000006961208585276610136000000000002400934876860651812000000000013333567141560856450000000000002389892566231050353000000000007614905709171909416000000000002378901041078893286000000000007146173888310361636000000000002367960067833077531000000000007145810835553352033000000000002357069413996727647000000000007955069348813330683000000000002346228848142262535000000000008926971964687556438000000000002335438139906479194000000000009635476530386077806000000000002324697059985647840000000000009219673339178626145000000000002314005380130652867000000000009031662863225328227000000000002303362873142131306000000000009835252230107087957000000000002292769312865648601000000000011004286376723969920000000000002282224474186897467000000000014877794072894506640000000000002271728133026904928000000000011916959875488484420000000000002261280066337278427000000000012743168339921655910000000000002250880052095461892000000000011975904745855692930000000000002240527869300018082000000000012227469362880131010000000000002230223297965937590000000000012140603622030496740000000000002219966119119954939000000000012428806341662965240000000000002209756114795901993000000000012934349513009790330000000000002199593068030074861000000000014473798504029618290000000000002189476762856620695000000000016445127045960583120000000000002179406984302954697000000000016264288395868478340000000000002169383518385184217000000000017221543130114876810000000000002159406152103566612000000000018040715566525947830000000000002149474673437980599000000000018127173410786659370000000000002139588871343421417000000000018802593909556888570000000000002129748535745519789000000000019617227154579688580000000000002119953457536071184000000000020849153304538490220000000000002110203428568595641000000000020991944608734811690000000000002100498241653915343000000000020861040422426567610000000000002090837690555749973000000000021372992094540644820000000000002081221569986338338000000000021211380284258721870000000000002071649675602068896000000000022308733784116355260000000000002062121803999143665000000000023320033630063350570000000000002052637752709252084000000000023228842907013842450000000000002043197320195270450000000000023613074392179874380000000000002033800305846980905000000000024014586524953442890000000000002024446509976803910000000000024722622505221778130000000000002015135733815557373000000000025744008740090295910000000000002005867779508233895000000000026263003342221528040000000000001996642450109793288000000000026502594074995124890000000000001987459549580982809000000000027771708339982041840000000000001978318882784164146000000000028279026797425861650000000000001969220255479172366000000000028908514039621880080000000000001960163474319185539000000000030316062725199184070000000000001951148346846616377000000000029729021397640172500000000000001942174681489025545000000000031471202211474923720000000000001933242287555045280000000000032135432770706555860000000000001924350975230331429000000000032713776301883654820000000000001915500555573527919000000000033264150632963771700000000000001906690840512251839000000000034862994336630127830000000000001897921642839100542000000000035607217448301141400000000000001889192776207666213000000000036374254780495854710000000000001880504055128582408000000000037042300398187458200000000000001871855294965579120000000000037654046810348187090000000000001863246311931559873000000000038170500597154341610000000000001854676923084698359000000000041123303511383587980000000000001846146946324547500000000000040926455008336112870000000000001837656200388171612000000000043187897398821173500000000000001829204504846293844000000000044128468271594503470000000000001820791680099462440000000000045763374704703349850000000000001812417547374236548000000000047937736804097853030000000000001804081928719382688000,
    2031327823840653780000000000003239742629528197426000000000002058819234046316929000000000003224842498408442282000000000002091146970266322653000000000003210010895543171472000000000002083595697606860356000000000003195247505759212103000000000002187366090972958420000000000003180552015332919780000000000002227494773106713929000000000003165924111983522238000000000002164955511589395137000000000003151363484866479325000000000002279295381605767998000000000003136869824566876375000000000002296690967362851384000000000003122442823092856301000000000002260786285831296799000000000003108082173869063780000000000002307244117144033399000000000003093787571730138453000000000002372500865076759513000000000003079558712914226604000000000002451970698616371359000000000003065395295056526592000000000002458238182664976548000000000003051297017182869453000000000002575776545097976386000000000003037263579703311578000000000002563195109122014376000000000003023294684405777843000000000002647503281547425222000000000003009390034449721085000000000002725070545510073593000000000002995549334359813187000000000002770792065646100546000000000002981772290019671701000000000002863963235576008362000000000002968058608665602449000000000002757495075094586366000000000002954407998880381214000000000002833573927628252652000000000002940820170587063842000000000002902794873801444501000000000002927294835042815890000000000002883857565562122149000000000002913831704832787040000000000002860282070730526262000000000002900430493863991543000000000002941225180271710000000000000002887090917359236286000000000002966647323148108041000000000002873812691851066248000000000002952052010602943078000000000002860595535175741944000000000003291668814485790250000000000002847439166467246352000000000003694834728292656172000000000002834343306151309250000000000003117495527702165615000000000002821307675939472048000000000003617224032168589829000000000002808331998823172526000000000003586951168562336558000000000002795415999067856561000000000003830153344397036619000000000002782559402207124322000000000003612183408932373421000000000002769761935036891032000000000003571566538243137172000000000002757023325609583964000000000004250969185322300158000000000002744343303228365372000000000005537577909498326189000000000002731721598441376386000000000003655460640921118123000000000002719157943036017500000000000003633844806498318950000000000002706652070033241131000000000003616764030814539155000000000002694203713681883627000000000003629579741104184077000000000002681812609453015739000000000003719038708932031482000000000002669478494034320804000000000003614993564755602355000000000002657201105324505264000000000003679354498670178288000000000002644980182427719839000000000003834389637388641229000000000002632815465648021203000000000003865295600691003214000000000002620706696483852483000000000003923747004376159365000000000002608653617622547927000000000004009478963315298578000000000002596655972934870960000000000004022027817285697614000000000002584713507469563609000000000004064543663093573895000000000002572825967447933593000000000004170395867721005083000000000002560993100258459521000000000004239819144624538880000000000002549214654451423101000000000004332456228190847886000000000002537490379733570478000000000004472986014744632205000000000002525820026962784581000000000004574037030397623853000000000002514203348142796557000000000004679683173942269369000000000002502640096417919224000000000004734039500859178040000000000002491130026067788350000000000004824250751983687351000000000002479672892502158987000000000004969705084357201853000000000002468268452255692580000000000005200412744159436337000000000002456916462982790250000000000005272613725963787429000000000002445616683452446694000000000005800064909292436078000000000002434368873543110467000000000005821195918528890137000000000002423172794237599348000,
    1258170132161766154000000000004351496500925049560000000000001248787785443896307000000000004331483223376398684000000000001262897015389388450000000000004311561990318228510000000000001341895547113412796000000000004291732378422157268000000000001311327458479477027000000000004271993966306779100000000000001296569541656618458000000000004252346334528682092000000000001283869251866472340000000000004232789065573548726000000000001287677399852467829000000000004213321743847289014000000000001284519607046796356000000000004193943955667186430000000000001333322760768580601000000000004174655289253136914000000000001358381596477794973000000000004155455334718875093000000000001304399057503809017000000000004136343684063273685000000000001374102575139416087000000000004117319931161679136000000000001358913779798793722000000000004098383671757261482000000000001388105757099902488000000000004079534503452450878000000000001362338316000410508000000000004060772025700365617000000000001384417325250030840000000000004042095839796306223000000000001372322435087866661000000000004023505548869292880000000000001386591023359103168000000000004005000757873611406000000000001400200220006256983000000000003986581073580440915000000000001402019560094570873000000000003968246104569481503000000000001437099297213884370000000000003949995461220643023000000000001405343458883402892000000000003931828755705770106000000000001384781734192009637000000000003913745601980384237000000000001439588722041668696000000000003895745615775503268000000000001426809922784191709000000000003877828414589457395000000000001441762510382827328000000000003859993617679766942000000000001425545390272038718000000000003842240846055060643000000000001502776933651717703000000000003824569722466998911000000000001437002060726020490000000000003806979871402285909000000000001456760170761887869000000000003789470919074667421000000000001455608454098468291000000000003772042493416997644000000000001480041495459314396000000000003754694224073336528000000000001416545551640558760000000000003737425742391064176000000000001467436125687630047000000000003720236681413067714000000000001484016068398540588000000000003703126675869926743000000000001501504431945251067000000000003686095362172157763000000000001527434173955335137000000000003669142378402494131000000000001555670782382103632000000000003652267364308175246000000000001556870727774530533000000000003635469961293319585000000000001515755480973603188000000000003618749812411280686000000000001624773793313398789000000000003602106562357069919000000000001595470523623441679000000000003585539857459816915000000000001786203549144064809000000000003569049345675229290000000000001607811730907013956000000000003552634676578141182000000000001637476341134724726000000000003536295501355042603000000000001630674848460105072000000000003520031472796679139000000000001677055629381199158000000000003503842245290673674000000000001634947673368951190000000000003487727474814177242000000000001663848604060394429000000000003471686818926561102000000000001729715906645370482000000000003455719936762139355000000000001723771906456338231000000000003439826489022924250000000000001751052699022098659000000000003424006137971424124000000000001772642254460134340000000000003408258547423452001000000000001778130805559925630000000000003392583382740993869000000000001786502375176593334000000000003376980310825091181000000000001789299824407395736000000000003361449000108765262000000000001821564841152244645000000000003345989120549972995000000000001837809954948123359000000000003330600343624588788000000000001880022856198527312000000000003315282342319424913000000000001929849426177428879000000000003300034791125285238000000000001931127793959933077000000000003284857366030043835000000000001960408810632805822000000000003269749744511766210000000000001963246923435845615000000000003254711605531848306000,
    1224359960409504498000000000005844761131633634932000000000001230137679257448785000000000005817880074344935082000000000001128951668560217972000000000005791122647641758192000000000001114236051065531745000000000005764488282925876206000000000001113179109340605359000000000005737976414214134024000000000001083937900587111515000000000005711586478126432098000000000001094643408642483640000000000005685317913873753071000000000001116130688436876182000000000005659170163246242424000000000001089049379456279959000000000005633142670601354496000000000001091976009094450231000000000005607234882852032598000000000001091526043424164192000000000005581446249454963748000000000001102579829413097110000000000005555776222398877451000000000001081256359049153109000000000005530224256192899901000000000001099980890043507395000000000005504789807854970718000000000001136914439079509231000000000005479472336900287388000000000001127391589022453113000000000005454271305329833552000000000001085726415080259062000000000005429186177618942821000000000001113950340314974139000000000005404216420705915169000000000001123262594906077859000000000005379361503980700121000000000001070376913044237004000000000005354620899273607648000000000001031344261108406807000000000005329994080844087989000000000001046261361865910704000000000005305480525369573996000000000001015216862700816511000000000005281079711934330589000000000001040064188896497017000000000005256791122018422158000000000001033985419520572972000000000005232614239486662200000000000001020420562480381235000000000005208548550577660308000000000001035983874937170274000000000005184593543892913203000000000001022743365758398413000000000005160748710385907856000000000001035247462286810927000000000005137013543351341127000000000001037902737378947805000000000005113387538414325917000000000001076611396967248677000000000005089870193519679731000000000001074583039437718165000000000005066461008921268672000000000001076718162639442885000000000005043159487171358535000000000001114414507819046420000000000005019965133110081723000000000001088536691877081699000000000004996877453854883555000000000001074553675379592222000000000004973895958790062366000000000001125935359388104378000000000004951020159556351530000000000001081795114752425840000000000004928249570040513561000000000001113998981747684038000000000004905583706365047902000000000001097268332318675714000000000004883022086877879531000000000001129520279066727865000000000004860564232142133534000000000001152429810163720654000000000004838209664925957298000000000001113755800510845585000000000004815957910192350511000000000001128175772296249221000000000004793808495089109556000000000001123020819831705830000000000004771760948938745628000000000001121788206964702932000000000004749814803228499471000000000001117344004462696810000000000004727969591600390942000000000001137723100173017594000000000004706224849841281355000000000001135763940382534991000000000004684580115873047390000000000001130458886125762627000000000004663034929742731549000000000001171582788374094875000000000004641588833612777165000000000001140218699075328203000000000004620241371751313153000000000001128300129215688369000000000004598992090522438048000000000001158877366597272509000000000004577840538376618440000000000001155833541870210618000000000004556786265841063965000000000001124304805856016969000000000004535828825510186135000000000001156873801296735632000000000004514967772036101934000000000001175112150922851293000000000004494202662119142389000000000001190158094616780944000000000004473533054498465589000000000001564009591410922569000000000004452958509942655496000000000001188968026303983271000000000004432478591240396071000000000001211728943179597379000000000004412092863191190162000000000001218127469774497394000000000004391800892596086214000000000001235564414049496050000000000004371602248248504452000,
    827663795506909035400000000007850456200204509116000000000000818012857978985444900000000007814350607844542651000000000000818450356080418920800000000007778411071286490142000000000000829341610828874721200000000007742636826811269657000000000000834244841145292371200000000007707027114212299068000000000000832425621135980133400000000007671581176779302780000000000000824185548458532457100000000007636298261282242095000000000000829228953263187055400000000007601177617955330845000000000000826235395630608417400000000007566218500481055287000000000000816322252080387378900000000007531420165974371628000000000000814799918531205977900000000007496781874966876558000000000000829016049600849675200000000007462302891391108517000000000000823838225788821188000000000007427982482564918598000000000000822483577455377273200000000007393819919175865607000000000000836238468134504889600000000007359814475265767442000000000000856447399899028701100000000007325965428215229736000000000000833693298821025078900000000007292272058728312345000000000000860409825112490688700000000007258733650817252681000000000000875258183645308329700000000007225349491787214617000000000000866054666843480205000000000007192118872221189463000000000000873540373980663518200000000007159041085964888396000000000000855719843691003318100000000007126115430111745752000000000000896941404234363150500000000007093341204987996207000000000000898038952301480521400000000007060717714137773271000000000000890510553906418937900000000007028244264308348477000000000000920033755656821860500000000006995920165435374827000000000000929305232980687476000000000006963744730628222612000000000000925449138847348593000000000006931717276155407603000000000000936448443551523205500000000006899837121430017817000000000000963586050147926100800000000006868103588995303710000000000000969838225245973736500000000006836516004510238531000000000000975636152980998846000000000006805073696735206568000000000000973600842088455404900000000006773775997517752501000000000000973791512701015016900000000006742622241778342129000000000000998811500939833658700000000006711611767496283676000000000001009202451177932315000000000006680743915695614987000000000000998593802627047555500000000006650018030431118632000000000001018238036805924662000000000006619433458774395262000000000001035077495438005365000000000006588989550799949768000000000001024326443306592705000000000006558685659571432325000000000001015016173243145856000000000006528521141127846761000000000001035968164356347136000000000006498495354469888241000000000001033329683524146235000000000006468607661546327847000000000001024167274804018389000000000006438857427240419895000000000001025845057839138742000000000006409244019356454203000000000001002196535492162743000000000006379766808606282069000000000001003709249308691024000000000006350425168595962333000000000001015656959639301409000000000006321218475812451487000000000001007215345534142805000000000006292146109610344240000000000001017550167222242902000000000006263207452198689396000000000000992452610180016992500000000006234401888627863997000000000000998222713663640177800000000006205728806776500761000000000001046919786989703868000000000006177187597338491543000000000001020397062595513536000000000006148777653810022770000000000001053016672766079049000000000006120498372476699700000000000001035564999279165294000000000006092349152400711887000000000001062986229754670552000000000006064329395408061885000000000001164384505287914987000000000006036438506075867139000000000001288995067136683814000000000006008675891719686746000000000001370545464954897091000000000005981040962380941295000000000001358088299398455012000000000005953533130814370367000000000001152669363370467888000000000005926151812475552560000000000001184031441886554307000000000005898896425508496577000000000001241239973608976599000000000005871766390733255747000,
    703095489125045699800000000010544427935261684580000000000000697550613698650078200000000010495932305582276460000000000000697699509843710165800000000010447659715608041610000000000000697563694862649634600000000010399609139541203720000000000000690212320580442378900000000010351779556301762850000000000000698305604612973566400000000010304169949505875080000000000000705653013773599563400000000010256779307444219280000000000000690676242236938991800000000010209606623060464870000000000000696012133154278425200000000010162650893929951220000000000000694865558514818044500000000010115911122238297540000000000000714952672820723346100000000010069386314760271260000000000000712854334103985790700000000010023075482838653730000000000000711570099737546863400000000009976977642363200971000000000000720915611534576065700000000009931091813749794994000000000000705767320222687144900000000009885417021919573699000000000000717050939813311275900000000009839952296278231358000000000000712216847495318228800000000009794696670695395824000000000000713471446688788458000000000009749649183484086734000000000000727594220861399841700000000009704808877380301624000000000000727037060743071553700000000009660174799522646083000000000000714983334920264854800000000009615746001432096079000000000000731770279670212628700000000009571521538991865441000000000000730522044247403496200000000009527500472427290390000000000000750580981109550662300000000009483681866285922979000000000000739320076842191418200000000009440064789417603208000000000000737211179552115460100000000009396648314954690306000000000000754264630705626955600000000009353431520292386381000000000000756743627804968995000000000009310413487069075700000000000000760245462878207775100000000009267593301146878559000000000000775560810795591207900000000009224970052592173886000000000000785751290604021819200000000009182542835656282421000000000000765830288617956860900000000009140310748756232329000000000000757437907565914823900000000009098272894455558912000000000000744703491743827861400000000009056428379445289067000000000000739762750718420945200000000009014776314524917211000000000000749241699455449597200000000008973315814583520478000000000000755297089752372471500000000008932045998580969126000000000000745238855912483202600000000008890965989529158264000000000000733068487203044291100000000008850074914473434262000000000000743125473702338921900000000008809371904473991322000000000000754624406277044514200000000008768856094587427208000000000000742936997091739374600000000008728526623848379984000000000000756467923854452812100000000008688382635251184638000000000000758592618915072663900000000008648423275731721560000000000000785022219180552963700000000008608647696149245121000000000000778350149034524491700000000008569055051268347256000000000000780668528601101165500000000008529644499741024788000000000000808114235309084067600000000008490415204088746748000000000000789018612162726680000000000008451366330684717809000000000000792912495511029462900000000008412497049736118981000000000000813061593068300388400000000008373806535266488993000000000000824561730875954461100000000008335293965098195201000000000000806183328278287610100000000008296958520834907347000000000000839533948095655640900000000008258799387844267414000000000000832719559183876512300000000008220815755240541023000000000000831532534279116025500000000008183006815867389605000000000000805742738112081073300000000008145371766280744907000000000000821729623717688864800000000008107909806731686331000000000000825518019808312086500000000008070620141149503013000000000000797188844051729765100000000008033501977124734594000000000000811987651824266702000000000007996554525892345566000000000000801605904424938640700000000007959777002314986305000000000000805851390962319828900000000007923168624866254106000000000000800142780220598435100000000007886728615614151749000,
    671561227465634187600000000014162866162991988970000000000000681429663177276906100000000014097728716289677210000000000000690805941365117456000000000014032890847858732290000000000000683985286132892180400000000013968351179887397960000000000000686195062480229796900000000013904108340900697270000000000000666079770865233490500000000013840160965731314490000000000000668919054906178016300000000013776507695490550990000000000000674717145961351780200000000013713147177539457290000000000000665886848899055317300000000013650078065460138530000000000000669844618806723666700000000013587299019027091160000000000000671405309064088047100000000013524808704178752810000000000000661505215531636976600000000013462605792989108980000000000000666047829812429466400000000013400688963639507280000000000000654380694022758878800000000013339056900390588110000000000000670019289593190864800000000013277708293554289300000000000000668225811084022932600000000013216641839466052490000000000000672742268379753974800000000013155856240457052310000000000000651804214603122875700000000013095350204826675620000000000000663438038388821894800000000013035122446815088890000000000000657406178562330979100000000012975171686575868080000000000000666048085046505319000000000012915496650148838850000000000000669894338458858127400000000012856096069432965120000000000000662748880699036323700000000012796968682159416630000000000000678761849617646085000000000012738113231864784320000000000000658310198040041818500000000012679528467864339800000000000000669232308269781973700000000012621213145225473800000000000000683570375436902301200000000012563166024741214240000000000000681651825874793978800000000012505385872903913480000000000000660898592409697306500000000012447871461879061880000000000000670300499229756995900000000012390621569479156960000000000000691152027935823637000000000012333634979137760010000000000000672032372687483427500000000012276910479883591170000000000000671002519426373892000000000012220446866314887300000000000000674389687542713122500000000012164242938573680420000000000000683384232723076442800000000012108297502320394300000000000000698312069946794437400000000012052609368708425560000000000000700132116705642937200000000011997177354358842650000000000000695754951329504697800000000011942000281335324980000000000000706796122523970328000000000011887076977119032510000000000000702879145063807420900000000011832406274583780710000000000000679245768134143618800000000011777987011971193000000000000000698289598146751014500000000011723818032865985120000000000000703746852329871995600000000011669898186171474210000000000000699684365673273840400000000011616226326085018170000000000000677849363022966195000000000011562801312073753480000000000000677977483177679146600000000011509622008850323030000000000000686496158916639636400000000011456687286348714850000000000000684439678733456243600000000011403996019700331030000000000000670702638104798804100000000011351547089209989850000000000000691298532699685329900000000011299339380332216360000000000000689385531230396605800000000011247371783647518840000000000000678448741334282684000000000011195643194838783070000000000000687504616192981199400000000011144152514667881350000000000000688566980063731052700000000011092898648952227350000000000000688556133690547520900000000011041880508541602520000000000000693351716915234553100000000010991097009294972510000000000000678989716701468461000000000010940547072057424320000000000000686741889854613944800000000010890229622637305340000000000000686719050660024394700000000010840143591783309770000000000000680324287568088074100000000010790287915161836450000000000000684714333049941336700000000010740661533334333910000000000000693785236577967546700000000010691263391734760550000000000000691600631958562103900000000010642092440647246580000000000000681866741471126190600000000010593147635183700570000,
    641996551634552103700000000019023011886689457130000000000000647270121517703473500000000018935521797562952880000000000000628697241343839732100000000018848434090337954670000000000000640957887240085203800000000018761746914391196130000000000000651683703540142413400000000018675458427610760740000000000000648019062593380228800000000018589566796356882610000000000000649768529754581651200000000018504070195423020100000000000000637065451669173467600000000018418966807997108500000000000000640732843771756466400000000018334254825622889480000000000000635828542743503681400000000018249932448161524690000000000000632675894381683398700000000018165997883753286150000000000000653176835569405552700000000018082449348779516640000000000000698019584279436967900000000017999285067824763470000000000000653508717735773106800000000017916503273638994640000000000000655446131518938809100000000017834102207100082180000000000000651248275334156057900000000017752080117176359410000000000000643884750278174912600000000017670435260889465210000000000000637814174862069751900000000017589165903277324790000000000000647800192991898045200000000017508270317357232670000000000000643712272109225560700000000017427746784089191580000000000000652130502181490540000000000017347593592339325140000000000000635123351341848189400000000017267809038843560640000000000000646029742388986332900000000017188391428171456710000000000000626110348396231389800000000017109339072690133320000000000000645032334371558099200000000017030650292528443400000000000000653993900014010607300000000016952323415541212630000000000000645097495047719660900000000016874356777273757760000000000000641639816765158389200000000016796748720926532880000000000000649173071607102905000000000016719497597319883650000000000000646730078327917146300000000016642601764859034570000000000000650381533898206627900000000016566059589499153050000000000000644971139354741188500000000016489869444710649300000000000000639769821773556988700000000016414029711444663920000000000000647711264779330228500000000016338538778098603640000000000000650737033986188651900000000016263395040481921680000000000000649477008622496005600000000016188596901781991730000000000000647587452197720133400000000016114142772530198040000000000000658189861619270818100000000016040031070568198860000000000000655933527711118623900000000015966260221014252350000000000000653378663011420295100000000015892828656229778520000000000000651510389392866520300000000015819734815786014790000000000000647508882070777920000000000015746977146430867830000000000000647514719451354082800000000015674554102055950010000000000000662329007099776489400000000015602464143663678440000000000000661084680700434797000000000015530705739334601390000000000000644801249989419603400000000015459277364194784350000000000000646458811042043215600000000015388177500383463330000000000000648441239451728072500000000015317404637020797510000000000000646921062830162011400000000015246957270175730060000000000000648832224359928625400000000015176833902834053450000000000000657182341607253618600000000015107033044866557250000000000000642622561570069327500000000015037553212997383410000000000000653918182314113491100000000014968392930772554910000000000000656421248157210927400000000014899550728528535610000000000000658700045934989669200000000014831025143361043210000000000000657658355621306275700000000014762814719093910300000000000000667791610215526186200000000014694918006248173010000000000000671247559786586189700000000014627333562011298800000000000000659848783300014510300000000014560059950206485270000000000000663032886649123076100000000014493095741262166600000000000000650078097948263723300000000014426439512181588040000000000000673957602223427503100000000014360089846512607890000000000000659950714905318375100000000014294045334317610240000000000000667275485886367644800000000014228304572143520090000,
    669338761895964773800000000025550970903525069390000000000000673860802437967261600000000025433457613046482490000000000000665500557546230706200000000025316484786313529300000000000000667016732514147486700000000025200049937640920920000000000000675406000046758185800000000025084150592775412750000000000000658538777618301296300000000024968784288843266950000000000000661903506928737533700000000024853948574297984920000000000000678818078048264987800000000024739641008868116500000000000000669228406780906535000000000024625859163505467110000000000000659175401694345861000000000024512600620333398640000000000000650478082308847630300000000024399862972595502700000000000000655927537645118675800000000024287643824604504060000000000000661217311378856670600000000024175940791691283490000000000000663661870616114608200000000024064751500154241630000000000000666517762679825306500000000023954073587208793580000000000000655009980537476235200000000023843904700937204670000000000000656202886328079213900000000023734242500238661930000000000000650176473144792574500000000023625084654779450940000000000000652048470933258875000000000023516428844943484930000000000000668197295146558695700000000023408272761782941980000000000000651489226887995681300000000023300614106969246110000000000000639852814932752735600000000023193450592744275700000000000000653143186235305659800000000023086779941871674280000000000000657519383389057719700000000022980599887588510910000000000000647643896262189208800000000022874908173557039960000000000000663456840472121693100000000022769702553816799200000000000000665382532371032658900000000022664980792736929520000000000000653814406904534952300000000022560740664968591320000000000000660879729557268366700000000022456979955397738990000000000000663223156157753515900000000022353696459097966450000000000000659215675508182309700000000022250887981283693760000000000000642174839319642896800000000022148552337263592450000000000000640808923553658932700000000022046687352394076240000000000000637154668343019746000000000021945290862033135680000000000000650887108273504838700000000021844360711494283580000000000000643636607286459025200000000021743894756000798910000000000000648240271109824276800000000021643890860640203750000000000000645063966464454499200000000021544346900318822690000000000000641727176985102380100000000021445260759716674670000000000000641248329558267496800000000021346630333242455890000000000000643320628837114244000000000021248453524988829600000000000000659239440394485627600000000021150728248687946120000000000000648770270199397885400000000021053452427667039610000000000000642123920285373408100000000020956623994804328960000000000000647701809211775805200000000020860240892485049360000000000000640811132430992854700000000020764301072557748280000000000000646703563962732390000000000020668802496290820160000000000000647819601000952432700000000020573743134329114920000000000000652392078892624621900000000020479120966650853570000000000000646703338457701099800000000020384933982524643170000000000000640235415141368817000000000020291180180466781740000000000000649467517081334763500000000020197857568198784860000000000000643300653368650051500000000020104964162604969150000000000000642909523092540789100000000020012497989690371010000000000000648111035306643010100000000019920457084538713840000000000000654963237052373257100000000019828839491270713320000000000000677880868722793541300000000019737643263002553340000000000000640138356497407628100000000019646866461804444270000000000000644155940107055072300000000019556507158659491100000000000000646657951197688260600000000019466563433422632560000000000000648827575648979352100000000019377033374779890100000000000000655961030689657104700000000019287915080207775990000000000000652815194801889844500000000019199206655932829340000000000000635762676385418537000000000019110906216891379470000,
    759524630146273004800000000034319071974590428910000000000000738337948632816559400000000034161232685855281940000000000000750533451951965756500000000034004119327037062700000000000000747795460095005034700000000033847728559459829970000000000000720145494564842995000000000033692057059802669980000000000000730948989315834870200000000033537101520029290210000000000000729242232409291167900000000033382858647317607390000000000000777868734631205993100000000033229325163989716430000000000000799508544015805773300000000033076497807442427760000000000000730207616821471934200000000032924373330077690980000000000000735113138760341861300000000032772948499233820030000000000000733931002144810262100000000032622220097116701250000000000000729903650503518315200000000032472184920731285730000000000000733690813925787765200000000032322839781813809170000000000000733791840603450105900000000032174181506763716240000000000000730927756853354736300000000032026206936576500080000000000000733930701338877747300000000031878912926776456520000000000000730282533310880781500000000031732296347349762300000000000000731662289811393444500000000031586354082678190030000000000000730256086094284216100000000031441083031472646780000000000000716194278692326188400000000031296480106707502960000000000000725297394272379610100000000031152542235554881240000000000000715455493190519509400000000031009266359319263980000000000000730592356865933797600000000030866649433372742810000000000000731037111305334452700000000030724688427090035250000000000000722259319600403748200000000030583380323784314210000000000000716273965170858589500000000030442722120643026070000000000000718414301291711476000000000030302710828663964550000000000000706643208720780844500000000030163343472591969880000000000000687705632459439233800000000030024617090855491600000000000000709173351838747450800000000029886528735503827650000000000000709010411012250313000000000029749075472144403420000000000000694642195427039654100000000029612254379880346280000000000000711416082206594321100000000029476062551248588760000000000000690970670105929123500000000029340497092157869470000000000000706822009919418581500000000029205555121827450190000000000000695765126980435662700000000029071233772725753400000000000000697731077937855478500000000028937530190509505700000000000000691293883221201281400000000028804441533962977930000000000000676165018572616474500000000028671964974937696980000000000000699401001339822341800000000028540097698292373710000000000000700976727962711324400000000028408836901833012690000000000000684555019827891410300000000028278179796253408540000000000000707864400318284776600000000028148123605075812750000000000000710709406509712205300000000028018665564591952940000000000000714914261327040110800000000027889802923804393230000000000000698236414770223000800000000027761532944367979780000000000000706549049208970482600000000027633852900531695700000000000000697673780336293508500000000027506760079080675040000000000000693047419494602680600000000027380251779278574990000000000000688847135007598742100000000027254325312810277640000000000000696554244903073831300000000027128978003724643030000000000000689836657413005317700000000027004207188377728240000000000000677028690348304996200000000026880010215376074710000000000000674707043948483453500000000026756384445520450300000000000000676218742529524437000000000026633327251749807370000000000000673467221826080260500000000026510836019085360250000000000000672802018997775930600000000026388908144575106010000000000000678829190535074739400000000026267541037238385120000000000000664899616514939151500000000026146732118010919520000000000000665716515913544590600000000026026478819690044020000000000000673969248771720940800000000025906778586880062680000000000000665360092292691267300000000025787628875938008830000000000000663819883062013524600000000025669027154919518810000,
    860857830020429306500000000046096044868284337780000000000000853678843765392965800000000045884041264547613540000000000000873902316788533476800000000045673012701687468960000000000000864405329016356623300000000045462954695323992380000000000000848050527472596979300000000045253862781701667470000000000000849497487492615292200000000045045732517594586850000000000000836832056783170396300000000044838559480211910110000000000000837945222872629885200000000044632339267103975540000000000000834855390004799014200000000044427067496068826810000000000000818680653253110233500000000044222739805058972710000000000000836199521009743854800000000044019351852088743730000000000000823292059439973818100000000043816899315141944270000000000000827861177724370380800000000043615377892080056200000000000000841480306414354335300000000043414783300550925560000000000000825129228132584914700000000043215111277897619860000000000000820812232211379693000000000043016357581067950380000000000000819674032738232476500000000042818517986524153680000000000000815183261338165933200000000042621588290153249550000000000000812907272513604262200000000042425564307177768340000000000000822555769568896066300000000042230441872066722910000000000000804330272923284142000000000042036216838447137430000000000000808332537729915527700000000041842885079015843530000000000000813374229129476510100000000041650442485451850420000000000000812030445797261880300000000041458884968329113010000000000000802944700012007650500000000041268208457029516010000000000000795359015749608782600000000041078408899656466250000000000000801706906252660396800000000040889482262948644120000000000000792273808223123517400000000040701424532194386070000000000000789846810063628722900000000040514231711146470620000000000000789819890678591418600000000040327899821937052140000000000000780069520230984654200000000040142424904993220030000000000000776272331461007890800000000039957803018952694170000000000000803370597947948663100000000039774030240580367490000000000000790697398556797835100000000039591102664684586900000000000000786922679811958097100000000039409016404034474590000000000000780755238353167470500000000039227767589277192430000000000000785823713542270264700000000039047352368855598570000000000000785278949192766019300000000038867766908926677160000000000000764709073062426047800000000038689007393279757710000000000000775905378129929728000000000038511070023255689420000000000000780882021750224079300000000038333951017666015560000000000000778044635488681975600000000038157646612712483150000000000000790577291371567764500000000037982153061907359870000000000000782509699948749972200000000037807466635993489490000000000000777857689304907104200000000037633583622865324970000000000000779980548869548420200000000037460500327489927490000000000000777165607568738368000000000037288213071828334930000000000000766953150201486327700000000037116718194757669380000000000000768296139595916744400000000036946012051993022850000000000000774019837753084330900000000036776091016010309430000000000000767966511459131711100000000036606951475969026430000000000000756732506665207206400000000036438589837635441880000000000000782530829065843984000000000036271002523306481180000000000000764319374873607289200000000036104185971733375030000000000000771951900229722315800000000035938136638046256620000000000000779053025020656827600000000035772850993678736130000000000000781363157744633067800000000035608325526292776430000000000000779441138020812033500000000035444556739704353280000000000000767017980765402604900000000035281541153808831270000000000000765068351095535401000000000035119275304507277720000000000000752922651318357091700000000034957755743632753820000000000000760562680765969881000000000034796979038876912680000000000000767241636317073704400000000034636941773717342130000000000000766102463660759824000000000034477640547344640250000,
    1012615476028949027000000000061914417559778473790000000000001013506181315867466000000000061629662551329420240000000000001015748803406972484000000000061346217179925065470000000000000994282730473088605300000000061064075422320365760000000000000993408089348514552800000000060783231282972303690000000000001007078544579594032000000000060503678793912240510000000000001001727490261297508000000000060225412014619280400000000000000978901324661735537000000000059948425031894089440000000000000989719906196197426000000000059672711959733101140000000000000977338986981550889600000000059398266939203563200000000000000978757199682293258800000000059125084138318811710000000000000977507102197569242500000000058853157751914500300000000000000979238108923426289500000000058582482001525363560000000000000987060074297369737400000000058313051135262185200000000000000971860098167106180600000000058044859427689777930000000000000961008866306848593200000000057777901179705065720000000000000983271012756091229100000000057512170718416132330000000000000977600625882839846400000000057247662397021781540000000000000962746818353222789100000000056984370594691358750000000000000975915264154297217300000000056722289716445436620000000000000971943027792570895100000000056461414193036728190000000000000985131135191032926000000000056201738480831875220000000000001013959847035859409000000000055943257061693770990000000000000977311005348926909700000000055685964442864087690000000000000970501025326564165700000000055429855156846690530000000000000964223062865615828100000000055174923761291290700000000000000962653953685731093800000000054921164838877894000000000000000943765903632401212500000000054668572997201806630000000000000933847970221015611500000000054417142868658879710000000000000936426044679240261500000000054166869110331515460000000000000929985929604164786300000000053917746403875048600000000000000933852654810713938000000000053669769455404764360000000000000913234293122343322700000000053422932995383519030000000000000924194872625975405600000000053177231778509667490000000000000928262847996408779700000000052932660583605616010000000000000916376023848528702900000000052689214213506772920000000000000892279847832845731300000000052446887494951192820000000000000923044956351116637600000000052205675278469755090000000000000928942666408800678600000000051965572438276569760000000000000900819044797203634800000000051726573872160190600000000000000918139277973490621900000000051488674501374975990000000000000901392228016768804700000000051251869270533325110000000000000925628399283969520300000000051016153147498334870000000000000920299981162865781400000000050781521123276706930000000000000925095831506167194000000000050547968211912404970000000000001506353176866453667000000000050315489450380567860000000000000898423059153743654100000000050084079898482121960000000000000889376166971795944700000000049853734638738939110000000000000882042426308387967400000000049624448776289136730000000000000883046819620938038200000000049396217438783207850000000000000872784410770786652500000000049169035776280310300000000000000894350211958341502800000000048942898961145317570000000000000871690807464626324900000000048717802187946307410000000000000861213305708993576000000000048493740673352328940000000000000876898732414426167300000000048270709656031829130000000000000862388498176842086400000000048048704396551340780000000000000865848828420758395600000000047827720177274852630000000000000850966475829123602900000000047607752302263679670000000000000864368947594927941500000000047388796097176509650000000000000854526050999726625900000000047170846909170171560000000000000859893429681407340800000000046953900106800625740000000000000850825324798118785600000000046737951079924636130000000000000858505707604166807600000000046522995239601891630000000000000845748905881567345600000000046309028017997371760000,
    1286074485812560705000000000083161041532309616290000000000001287943467546438248000000000082778569661984727190000000000001284583207104919786000000000082397856845285116380000000000001267536389949344553000000000082018894992022035240000000000001273722272743875500000000000081641676049214720480000000000001270694460462688202000000000081266192000919454590000000000001231310168908446184000000000080892434868059376640000000000001252604313187402013000000000080520396708254702390000000000001234137531414990156000000000080150069615654047080000000000001231814206814163027000000000079781445720766294020000000000001228476296880667119000000000079414517190293395290000000000001223892730568364390000000000079049276226964207130000000000001215178369695837984000000000078685715069368438890000000000001221699538159330168000000000078323825991791966320000000000001214229256275401807000000000077963601304052372140000000000001209394374316758022000000000077605033351335714540000000000001204039196898598889000000000077248114514034000420000000000001185876129406575566000000000076892837207583056620000000000001186808917038732826000000000076539193882301481150000000000001178810374030112496000000000076187177023229992300000000000001187173911271671017000000000075836779149971903280000000000001172387146857450387000000000075487992816534313080000000000001167931473638663613000000000075140810611169615640000000000001152229277072334803000000000074795225156218214120000000000001143342174041114623000000000074451229107951428430000000000001178890921818103574000000000074108815156415698770000000000001149890850827946332000000000073767976025277312150000000000001165917506991261259000000000073428704471667583680000000000001158782831665081403000000000073090993286029106460000000000001134684045802820468000000000072754835291962331210000000000001123154751138557498000000000072420223346073157700000000000001149860877655323580000000000072087150337821356060000000000001133584533307646485000000000071755609189369215530000000000001128301950813567386000000000071425592855431261800000000000001120544174819133353000000000071097094323124383660000000000001115246223595868927000000000070770106611818891910000000000001114539216954830143000000000070444622772990373960000000000001099290602633641620000000000070120635890071764610000000000001104311039948698628000000000069798139078306599000000000000001143158439898489253000000000069477125484602402140000000000001110397881430190776000000000069157588287385249260000000000001098902612994599068000000000068839520696454962940000000000001100072067144594618000000000068522915952840571660000000000001086712934974933316000000000068207767328656848350000000000001077816985194429475000000000067894068126961121830000000000001096810704339021450000000000067581811681611100080000000000001087532777387164650000000000067270991357123364200000000000001090475536808692680000000000066961600548532157970000000000001081689372791966690000000000066653632681249132470000000000001071695391329028913000000000066347081210923511210000000000001060044214197843594000000000066041939623303051120000000000001069733146665200834000000000065738201434095856260000000000001050352917911248295000000000065435860188832293720000000000001050303142020968222000000000065134909462728023750000000000001060248631538245959000000000064835342860547268630000000000001045698820117495261000000000064537154016467013660000000000001033917389474050230000000000064240336593941913180000000000001023003054241971619000000000063944884285569366970000000000001041212704701790576000000000063650790812955710860000000000001039735012403918060000000000063358049926582543780000000000001045438464629249277000000000063066655405674055150000000000001014369003756416424000000000062776601058065000420000000000001001382948736421669000000000062487880720068881150000000000001024642841641712183000000000062200488256347114200000,
    1584702171853636744000000000100000000000000000000000000000001553719584935811434000000000099540082876215183210000000000001548343643834941431000000000099082280990037975240000000000001482175443284102253000000000098626584613128204640000000000001495985603967164189000000000098172984061888405450000000000001479077685406576340000000000097721469697257248300000000000001491638962839033233000000000097272031924505370170000000000001453252490956964205000000000096824661193031238330000000000001454399847582803157000000000096379347996157855500000000000001421500780492571147000000000095936082870931466000000000000001446078533383312485000000000095494856397919659230000000000001426743054716895742000000000095055659201011917500000000000001441076882156044108000000000094618481947219925130000000000001443083450742947239000000000094183315346479514570000000000001406875679649614207000000000093750150151452896810000000000001410415757501399233000000000093318977157332392380000000000001401054491086113847000000000092889787201644981000000000000001398738273866467777000000000092462571164057339960000000000001396318863307083481000000000092037319966182212740000000000001396676156082488879000000000091614024571385209580000000000001406540723227712739000000000091192675984592983700000000000001392621376437595386000000000090773265252102237350000000000001391484456077755563000000000090355783461389205510000000000001372524545863776419000000000089940221740920446790000000000001353902402831410022000000000089526571259964009640000000000001352347567027453046000000000089114823228402019590000000000001359840760457602259000000000088704968896544028210000000000001355969986749246606000000000088296999554940828150000000000001319821509593790872000000000087890906534199541510000000000001342717362592109564000000000087486681204799140230000000000001326629157618346823000000000087084314976907239720000000000001355462525465169783000000000086683799300197733830000000000001330499896556019214000000000086285125663668873130000000000001320737662373511993000000000085888285595462491530000000000001297555910475183141000000000085493270662683846690000000000001305181475239078588000000000085100072471222460990000000000001297103659322247392000000000084708682665574019670000000000001313322200973695387000000000084319092928662507800000000000001278848137410615516000000000083931294981663643280000000000001274268052252342509000000000083545280583828719050000]
}
