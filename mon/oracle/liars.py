""" (bits, r, n): n is composite, a strong pseudoprime to the first r-1 primes and not to the r-th; made by tools/liars.py """
LIARS = [
    (203, 15, 10950304699611234388907904856114843604194280901250204210983211),
    (225, 15, 32084420727981781699443186524602395572935038073066124061188647072771),
    (245, 15, 40467897764745938572062478067406024987065510602216031526936093786871874251),
    (247, 15, 123507090768691830416503801542508611626849695286190006969682565897512224091),
    (253, 12, 9306649159968878841193743771141703342286812555033447332636888190803017784931),
    (275, 12, 54190037127266761337454417697937443886067606812022217492622049527369081107704535531),
    (295, 12, 36779337538546905427887552693130991540772369586344107713858904707298695314453686051470531),
    (297, 12, 231014453181181047751336734049165862877385635599454484096241420606223377482638236087459491),
    (303, 9, 10962234573187514249347048131830241654266683325815390172710761287528303378950823936129496931),
    (325, 9, 51011177245074033509082186847593186604710113854099552433782999765500216019210619396004519948379171),
    (345, 9, 70332387942363434115803214378978041943086478374886169629375005249197195160542523338629480678903053033251),
    (347, 9, 192244862189588520891132688167573102857556626999258170027046479548959211751301394085741774569502350284851),
    (353, 8, 16576865812628686555618615558702475018881227461509095718088056750815518540362346004186706924856880245454091),
    (375, 8, 43536083688404845585213887604560860896509807831761802660565309964271236836082891984156516061249775790315413351171),
    (395, 8, 52491365995154724075207466205555212267687749480590980070194968967003661748905150914135489886375465369159646877208805691),
    (397, 8, 178771818241110601374721319113107693802579787151097216362454154529699005057390028146815037603019619912154995001950975291),
    (403, 7, 19638285080168187103943246856255150206437880045338307612829794248274693829567607949270798602546500336693279968317249375291),
    (425, 7, 75170955877307869495896171107679822728601372726566338709061764232438537005855021108454253972153745102712443451341402661216345691),
    (445, 7, 65656539341630322113215722597863555925384442387383402375245138127796636018686093962521535586006251024081907208567914174527801684738251),
    (447, 7, 331083438155066234672311569820183446300290915592924039397112464868497697366323468736250180400669041521692208653682542968049743630214771),
    (453, 6, 12319329051042306448914891252307374753385942166207349320911757600981334476212620167137535178017771825867251282396680233380313620504857931),
    (500, 6, 2168450816425624096604056720794364717537922317071598109892270585993220351848545741841912214411440576290261966266997486338162505884212943489017684108283),
    (545, 6, 97603836364620107443450613469672993244912484352481684630392383337182967807283539576936901750545144946298927223578358470566478761702794074106824241598998020324200651),
    (547, 6, 290572745151368744786330970025985479888545821911796658417886921287690294064416137455769846875006418843032383533704447397813674164953836396218204898820856628569984211),
    (553, 5, 28744852497538344223926961253892683529496527592635172572168809800958428195199738457449449371728579890415403428687460053054495603574599852592195730713845931858757879651),
    (600, 5, 2911473019934450832880117130160312484821524451417520863276676429675887633778805854437284077685421320707606173993049570514558268733356976612717301055031145186868168083259863039524411),
    (645, 5, 130923045622438080201457283862361254481150145102952776929812145975281368035515313870204369473484744219928494940363937894097628568750646337294989013485094800529070877106381751381120197987661349291),
    (647, 5, 365307455543601245641298852936284745947344167647441168484836043646084024002985857462823224523456910610824934916740965255425232892260837689210089780573600007155541407354763849514875029674886379691),
    (653, 4, 33136830986214078202347906134461410984773852477275916666980643854364068284551148659964174650604379711436504153341861547953344831968052250033461397859605397333797721759228689085978078974738310491291),
    (750, 4, 3898367753155087322870363902597111144371286843918116001291385381263489243629432760966083818212754044655988077217869656792143564696082093924744263791741007978122463982786161509077689571433111777710303651514609661348029113119091),
    (845, 4, 225004109506586001246082475818625485449701042806608448164290599935437181249381428672689126470355347584128582062379401179598077308449642023507875212472906725796963413847337096770694316704830944485045579548462755009945849784595237168239046808143667585572971),
    (847, 4, 626911181108773454826298105845412077785380615583240666511067660677124104919908394677312755806782512715245563932377398940085846739550735280426435639979923088247007444639741112358782229085121772108795641669790827371459897393206515309363143879951230379545851),
    (853, 3, 34125399313525645923878356805562879044498213935218932305035781988379699157722359058806854778359557019593099515525890795960969744948909077815313032043400849968849157350992170097986703141790159968331293322853928190618058108470946396401730604040061809591051619),
    (1075, 3, 374381644431615721076491466497776014743164518060186374452856974119069618481787521470879267253810475822791349892436204435572930242241433450574909931191456824282353560494957961958926941707168984936532366500935604242812474145651879888139791380595469599947399043642121567933163679378069548732110996944986567890882970166123902499),
    (1295, 3, 454217493697089469705591985418545682781000619614795197626593579382950991745314746483234887936525530866646050712966361317139737542592552061543259168529670475734975102340205107837167472953021322242237925482205977772070371700601813549104150522101852330220474417897422724188448994895615953994201043479924298165679325573234778612892049090803667773398244010946990145956899460429039237053968676891),
    (1297, 3, 1806186084752203347818141969223688009195376235463101845262762321833533886589056739090721668817124387181265925692340136364073574034074089063895374017618221825943440691725317616071804928648092313210020672314011423326617211310075255182168962780313202849870139380375709857703143300035840114220794055405538050854497401049851466121951804586530341892764476777835244939591230235552085383224782256259),
    (70, 3, 1178666401329386649571),
    (80, 4, 1007580674141155599223891),
    (90, 5, 650668882292806950794831611),
    (100, 4, 932473985830444608675625751251),
    (105, 5, 21628449530611850895406793827291),
    (110, 5, 1284836705425605486402977144639131),
    (120, 6, 830786824071613581557380232787984211),
    (130, 6, 937900240314128750877740974177110978451),
    (140, 7, 1108449351305204486323025611831665108171691),
    (150, 7, 1158240538594260329386908414948826272354454867),
    (160, 8, 795748601255312992707914659732848853387791005731),
    (170, 8, 886770657221302256724997772547293964683333709304771),
    (180, 9, 1396612830934368966787263772243489863090837265906402051),
    (190, 10, 1068937613150103570807267809570176846766245260506839519171),
    (195, 10, 29777109438534463686658746397055400148915036171905175921651),
    (260, 5, 1808648520959454029960940649858827901329318718535160548048471544623186544120067),
    (330, 3, 1551696114585328072269659455596625309906827980737196155451514354008702869574411267136296562055573819),
    (249, 15, 738730620858995581938584766311490963117033634243770770038898793496308017851),
    (299, 12, 977396477167672264597254450019313927059887271489064101721748663358987957237723427887344811),
    (349, 9, 1074095520464426250613139003168670063175462579157861088963862795091901888825490874252271873531027178095211),
    (399, 8, 765348963536692672808946478220359289293685426804410981709203481463481325389001650954773311777117753264142505082378437411),
    (449, 7, 795034027081051780288742051521230693065738051619730899725269792911821065134755375809172454865379023400173127951882004984726476135956387),
    (549, 6, 1368207006634391453322137284362069096956771035333316801448298612589051467548989639608384868267996167822904228924166058860160352797684606502391313357983739996092370531),
    (649, 5, 2301815596350953591842888056260173004205729696874555417774016166712090278363856006848570165567443911554282008084162615990371932688594409544596946353254962922631590566926016817743702130635374779411),
    (849, 4, 2981003666941861909879913660041138222336495694636817950055183612795733865894133465033487028673389705277106548227078256845844194259882190442026504703318548629347062007993304025184332409412632960547711878688740191077242630462205593406163176805242200006769571),
    (1299, 3, 9215316971416782918543905851018993622882324385707661787173013723630559406628090060907043491244136008610828267886938851531740726400073145606401133506910115297682785649118141433933743364504888836351826382079804071716594220496837584915991018420018245506630023349625762384373833658453100883574886156154346861410224272334788596779315630722598350729688310595749629878163526525019986374714206436811),
]
