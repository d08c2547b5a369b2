//! Compact, independent restatement of the PresentationML / DrawingML / Chart
//! content models and simple types this library emits (ECMA-376 transitional).
use crate::xml::{El, Node};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

const MODELS: &str = r#"
p:presentation = sldMasterIdLst? notesMasterIdLst? handoutMasterIdLst? sldIdLst? sldSz? notesSz smartTags? embeddedFontLst? custShowLst? photoAlbum? custDataLst? kinsoku? defaultTextStyle? modifyVerifier? extLst?
p:sldMasterIdLst = sldMasterId*
p:notesMasterIdLst = notesMasterId?
p:handoutMasterIdLst = handoutMasterId?
p:sldIdLst = sldId*
p:sldLayoutIdLst = sldLayoutId*
p:embeddedFontLst = embeddedFont*
p:embeddedFont = font regular? bold? italic? boldItalic?
p:custShowLst = custShow*
p:custShow = sldLst extLst?
p:sld = cSld clrMapOvr? (transition|AlternateContent)? timing? extLst?
p:cSld = bg? spTree custDataLst? controls? extLst?
p:bg = (bgPr|bgRef)
p:bgPr = FILL EFFECT? extLst?
p:bgRef = COLOR?
p:spTree = nvGrpSpPr grpSpPr (sp|grpSp|graphicFrame|cxnSp|pic|contentPart|AlternateContent)* extLst?
p:grpSp = nvGrpSpPr grpSpPr (sp|grpSp|graphicFrame|cxnSp|pic|contentPart|AlternateContent)* extLst?
p:nvGrpSpPr = cNvPr cNvGrpSpPr nvPr
p:cNvPr = hlinkClick? hlinkHover? extLst?
p:cNvGrpSpPr = grpSpLocks? extLst?
p:nvPr = ph? (audioCd|wavAudioFile|audioFile|videoFile|quickTimeFile)? custDataLst? extLst?
p:grpSpPr = xfrm? FILL? EFFECT? scene3d? extLst?
p:sp = nvSpPr spPr style? txBody? extLst?
p:nvSpPr = cNvPr cNvSpPr nvPr
p:cNvSpPr = spLocks? extLst?
p:pic = nvPicPr blipFill spPr style? extLst?
p:nvPicPr = cNvPr cNvPicPr nvPr
p:cNvPicPr = picLocks? extLst?
p:blipFill = blip? srcRect? (tile|stretch)?
a:blipFill = blip? srcRect? (tile|stretch)?
p:graphicFrame = nvGraphicFramePr xfrm graphic extLst?
p:nvGraphicFramePr = cNvPr cNvGraphicFramePr nvPr
p:cNvGraphicFramePr = graphicFrameLocks? extLst?
p:cxnSp = nvCxnSpPr spPr style? extLst?
p:nvCxnSpPr = cNvPr cNvCxnSpPr nvPr
p:cNvCxnSpPr = cxnSpLocks? stCxn? endCxn? extLst?
p:style = lnRef fillRef effectRef fontRef
p:spPr = xfrm? (custGeom|prstGeom)? FILL? ln? EFFECT? scene3d? sp3d? extLst?
c:spPr = xfrm? (custGeom|prstGeom)? FILL? ln? EFFECT? scene3d? sp3d? extLst?
a:xfrm = off? ext? chOff? chExt?
p:xfrm = off? ext?
a:off =
a:ext = ANY
a:prstGeom = avLst?
a:avLst = gd*
a:solidFill = COLOR?
a:noFill =
a:gradFill = gsLst? (lin|path)? tileRect?
a:gsLst = gs gs gs*
a:gs = COLOR
a:srgbClr = MOD*
a:schemeClr = MOD*
a:sysClr = MOD*
a:prstClr = MOD*
a:ln = (noFill|solidFill|gradFill|pattFill)? (prstDash|custDash)? (round|bevel|miter)? headEnd? tailEnd? extLst?
a:lnL = (noFill|solidFill|gradFill|pattFill)? (prstDash|custDash)? (round|bevel|miter)? headEnd? tailEnd? extLst?
a:lnR = (noFill|solidFill|gradFill|pattFill)? (prstDash|custDash)? (round|bevel|miter)? headEnd? tailEnd? extLst?
a:lnT = (noFill|solidFill|gradFill|pattFill)? (prstDash|custDash)? (round|bevel|miter)? headEnd? tailEnd? extLst?
a:lnB = (noFill|solidFill|gradFill|pattFill)? (prstDash|custDash)? (round|bevel|miter)? headEnd? tailEnd? extLst?
a:effectLst = blur? fillOverlay? glow? innerShdw? outerShdw? prstShdw? reflection? softEdge?
a:glow = COLOR
a:innerShdw = COLOR
a:outerShdw = COLOR
a:reflection =
a:softEdge =
a:blur =
a:stretch = fillRect?
p:txBody = bodyPr lstStyle? p p*
a:txBody = bodyPr lstStyle? p p*
c:txPr = bodyPr lstStyle? p p*
c:rich = bodyPr lstStyle? p p*
a:bodyPr = prstTxWarp? (noAutofit|normAutofit|spAutoFit)? scene3d? (sp3d|flatTx)? extLst?
a:lstStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
p:titleStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
p:bodyStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
p:otherStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
p:notesStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
p:defaultTextStyle = defPPr? lvl1pPr? lvl2pPr? lvl3pPr? lvl4pPr? lvl5pPr? lvl6pPr? lvl7pPr? lvl8pPr? lvl9pPr? extLst?
a:p = pPr? (r|br|fld)* endParaRPr?
a:pPr = PPR
a:defPPr = PPR
a:lvl1pPr = PPR
a:lvl2pPr = PPR
a:lvl3pPr = PPR
a:lvl4pPr = PPR
a:lvl5pPr = PPR
a:lvl6pPr = PPR
a:lvl7pPr = PPR
a:lvl8pPr = PPR
a:lvl9pPr = PPR
a:lnSpc = (spcPct|spcPts)
a:spcBef = (spcPct|spcPts)
a:spcAft = (spcPct|spcPts)
a:buClr = COLOR
a:r = rPr? t
a:fld = rPr? pPr? t?
a:br = rPr?
a:t =
a:rPr = RPR
a:endParaRPr = RPR
a:defRPr = RPR
a:highlight = COLOR
a:graphic = graphicData
a:graphicData = ANY
a:tbl = tblPr? tblGrid tr*
a:tblPr = FILL? EFFECT? (tableStyle|tableStyleId)? extLst?
a:tblGrid = gridCol*
a:gridCol = extLst?
a:tr = tc* extLst?
a:tc = txBody? tcPr? extLst?
a:tcPr = lnL? lnR? lnT? lnB? lnTlToBr? lnBlToTr? cell3D? FILL? headers? extLst?
p:transition = (blinds|checker|circle|dissolve|comb|cover|cut|diamond|fade|newsflash|plus|pull|push|random|randomBar|split|strips|wedge|wheel|wipe|zoom)? sndAc? extLst?
p:clrMapOvr = (masterClrMapping|overrideClrMapping)
a:clrMapOvr = (masterClrMapping|overrideClrMapping)
p:sldMaster = cSld clrMap sldLayoutIdLst? transition? timing? hf? txStyles? extLst?
p:sldLayout = cSld clrMapOvr? transition? timing? hf? extLst?
p:notes = cSld clrMapOvr? extLst?
p:notesMaster = cSld clrMap hf? notesStyle? extLst?
p:handoutMaster = cSld clrMap hf? extLst?
p:txStyles = titleStyle? bodyStyle? otherStyle? extLst?
p:presentationPr = htmlPubPr? webPr? prnPr? showPr? clrMru? extLst?
p:showPr = (present|browse|kiosk)? (sldAll|sldRg|custShow)? penClr? extLst?
p:penClr = COLOR
p:viewPr = normalViewPr? slideViewPr? outlineViewPr? notesTextViewPr? sorterViewPr? notesViewPr? gridSpacing? extLst?
p:normalViewPr = restoredLeft restoredTop extLst?
p:slideViewPr = cSldViewPr extLst?
p:notesTextViewPr = cViewPr extLst?
p:cSldViewPr = cViewPr guideLst?
p:cViewPr = scale origin
p:scale = sx sy
a:theme = themeElements objectDefaults? extraClrSchemeLst? custClrLst? extLst?
a:themeElements = clrScheme fontScheme fmtScheme extLst?
a:clrScheme = dk1 lt1 dk2 lt2 accent1 accent2 accent3 accent4 accent5 accent6 hlink folHlink extLst?
a:dk1 = COLOR
a:lt1 = COLOR
a:dk2 = COLOR
a:lt2 = COLOR
a:accent1 = COLOR
a:accent2 = COLOR
a:accent3 = COLOR
a:accent4 = COLOR
a:accent5 = COLOR
a:accent6 = COLOR
a:hlink = COLOR
a:folHlink = COLOR
a:fontScheme = majorFont minorFont extLst?
a:majorFont = latin ea cs font* extLst?
a:minorFont = latin ea cs font* extLst?
a:fmtScheme = fillStyleLst lnStyleLst effectStyleLst bgFillStyleLst
a:fillStyleLst = FILL FILL FILL FILL*
a:lnStyleLst = ln ln ln ln*
a:effectStyleLst = effectStyle effectStyle effectStyle effectStyle*
a:effectStyle = EFFECT scene3d? sp3d?
a:bgFillStyleLst = FILL FILL FILL FILL*
c:chartSpace = date1904? lang? roundedCorners? AlternateContent? style? clrMapOvr? pivotSource? protection? chart spPr? txPr? externalData? printSettings? userShapes? extLst?
chartSpace/c:chart = title? autoTitleDeleted? pivotFmts? view3D? floor? sideWall? backWall? plotArea legend? plotVisOnly? dispBlanksAs? showDLblsOverMax? extLst?
c:title = tx? layout? overlay? spPr? txPr? extLst?
title/c:tx = (strRef|rich)
ser/c:tx = (strRef|v)
c:plotArea = layout? CHART CHART* (catAx|valAx|dateAx|serAx)* dTable? spPr? extLst?
c:barChart = barDir grouping? varyColors? ser* dLbls? gapWidth? overlap? serLines* axId axId extLst?
c:bar3DChart = barDir grouping? varyColors? ser* dLbls? gapWidth? gapDepth? shape? axId axId axId? extLst?
c:lineChart = grouping varyColors? ser* dLbls? dropLines? hiLowLines? upDownBars? marker? smooth? axId axId extLst?
c:pieChart = varyColors? ser* dLbls? firstSliceAng? extLst?
c:doughnutChart = varyColors? ser* dLbls? firstSliceAng? holeSize? extLst?
c:areaChart = grouping? varyColors? ser* dLbls? dropLines? axId axId extLst?
c:scatterChart = scatterStyle varyColors? ser* dLbls? axId axId extLst?
c:bubbleChart = varyColors? ser* dLbls? bubble3D? bubbleScale? showNegBubbles? sizeRepresents? axId axId extLst?
c:radarChart = radarStyle varyColors? ser* dLbls? axId axId extLst?
c:stockChart = ser ser ser ser? dLbls? dropLines? hiLowLines? upDownBars? axId axId extLst?
barChart/c:ser = idx order tx? spPr? invertIfNegative? pictureOptions? dPt* dLbls? trendline* errBars? cat? val? shape? extLst?
lineChart/c:ser = idx order tx? spPr? marker? dPt* dLbls? trendline* errBars? cat? val? smooth? extLst?
stockChart/c:ser = idx order tx? spPr? marker? dPt* dLbls? trendline* errBars? cat? val? smooth? extLst?
pieChart/c:ser = idx order tx? spPr? explosion? dPt* dLbls? cat? val? extLst?
doughnutChart/c:ser = idx order tx? spPr? explosion? dPt* dLbls? cat? val? extLst?
areaChart/c:ser = idx order tx? spPr? pictureOptions? dPt* dLbls? trendline* errBars? errBars? cat? val? extLst?
scatterChart/c:ser = idx order tx? spPr? marker? dPt* dLbls? trendline* errBars? errBars? xVal? yVal? smooth? extLst?
bubbleChart/c:ser = idx order tx? spPr? invertIfNegative? dPt* dLbls? trendline* errBars? errBars? xVal? yVal? bubbleSize? bubble3D? extLst?
radarChart/c:ser = idx order tx? spPr? marker? dPt* dLbls? cat? val? extLst?
c:cat = (multiLvlStrRef|numRef|numLit|strRef|strLit)
c:xVal = (multiLvlStrRef|numRef|numLit|strRef|strLit)
c:val = (numRef|numLit)
c:yVal = (numRef|numLit)
c:bubbleSize = (numRef|numLit)
c:strRef = f strCache? extLst?
c:numRef = f numCache? extLst?
c:strCache = ptCount? pt* extLst?
c:numCache = formatCode? ptCount? pt* extLst?
c:pt = v
c:catAx = axId scaling delete? axPos majorGridlines? minorGridlines? title? numFmt? majorTickMark? minorTickMark? tickLblPos? spPr? txPr? crossAx (crosses|crossesAt)? auto? lblAlgn? lblOffset? tickLblSkip? tickMarkSkip? noMultiLvlLbl? extLst?
c:dateAx = axId scaling delete? axPos majorGridlines? minorGridlines? title? numFmt? majorTickMark? minorTickMark? tickLblPos? spPr? txPr? crossAx (crosses|crossesAt)? auto? lblOffset? baseTimeUnit? majorUnit? majorTimeUnit? minorUnit? minorTimeUnit? extLst?
c:valAx = axId scaling delete? axPos majorGridlines? minorGridlines? title? numFmt? majorTickMark? minorTickMark? tickLblPos? spPr? txPr? crossAx (crosses|crossesAt)? crossBetween? majorUnit? minorUnit? dispUnits? extLst?
c:scaling = logBase? orientation? max? min? extLst?
c:legend = legendPos? legendEntry* layout? overlay? spPr? txPr? extLst?
c:dLbls = dLbl* (delete|numFmt)? spPr? txPr? dLblPos? showLegendKey? showVal? showCatName? showSerName? showPercent? showBubbleSize? separator? showLeaderLines? leaderLines? extLst?
ser/c:marker = symbol? size? spPr? extLst?
c:externalData = autoUpdate?
"#;
const GROUPS: &[(&str, &str)] = &[
    ("FILL", "(noFill|solidFill|gradFill|blipFill|pattFill|grpFill)"),
    ("EFFECT", "(effectLst|effectDag)"),
    ("COLOR", "(scrgbClr|srgbClr|hslClr|sysClr|schemeClr|prstClr)"),
    ("MOD", "(tint|shade|comp|inv|gray|alpha|alphaOff|alphaMod|hue|hueOff|hueMod|sat|satOff|satMod|lum|lumOff|lumMod|red|redOff|redMod|green|greenOff|greenMod|blue|blueOff|blueMod|gamma|invGamma)"),
    ("CHART", "(areaChart|area3DChart|lineChart|line3DChart|stockChart|radarChart|scatterChart|pieChart|pie3DChart|doughnutChart|barChart|bar3DChart|ofPieChart|surfaceChart|surface3DChart|bubbleChart)"),
    ("PPR", "lnSpc? spcBef? spcAft? (buClrTx|buClr)? (buSzTx|buSzPct|buSzPts)? (buFontTx|buFont)? (buNone|buAutoNum|buChar|buBlip)? tabLst? defRPr? extLst?"),
    ("RPR", "ln? FILL? EFFECT? highlight? (uLnTx|uLn)? (uFillTx|uFill)? latin? ea? cs? sym? hlinkClick? hlinkMouseOver? rtl? extLst?"),
];
#[derive(Debug)]
struct Item {
    names: Vec<String>,
    min: u8,
    many: bool,
}
fn parse_model(m: &str) -> Option<Vec<Item>> {
    let mut m = format!(" {m} ");
    for (g, d) in GROUPS.iter().rev() {
        for suf in [" ", "? ", "* "] {
            m = m.replace(&format!(" {g}{suf}"), &format!(" {d}{suf}"));
            m = m.replace(&format!(" {g}{suf}"), &format!(" {d}{suf}"));
            m = m.replace(&format!(" {g}{suf}"), &format!(" {d}{suf}"));
        }
    }
    if m.trim() == "ANY" {
        return None;
    }
    Some(
        m.split_whitespace()
            .map(|t| {
                let (t, min, many) = if let Some(t) = t.strip_suffix('?') {
                    (t, 0, false)
                } else if let Some(t) = t.strip_suffix('*') {
                    (t, 0, true)
                } else {
                    (t, 1, false)
                };
                let names = t.trim_matches(|c| c == '(' || c == ')').split('|').map(|s| s.to_string()).collect();
                Item { names, min, many }
            })
            .collect(),
    )
}
fn models() -> &'static BTreeMap<String, Option<Vec<Item>>> {
    static M: OnceLock<BTreeMap<String, Option<Vec<Item>>>> = OnceLock::new();
    M.get_or_init(|| {
        MODELS
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| {
                let (k, v) = l.split_once('=').unwrap();
                (k.trim().to_string(), parse_model(v))
            })
            .collect()
    })
}
/// Deterministic enough: every model is a sequence of disjoint-name items except repeated names
/// (ln ln ln*), so a set-of-positions match is used.
fn matches(items: &[Item], kids: &[&str]) -> Result<(), usize> {
    let mut pos: BTreeSet<usize> = BTreeSet::new();
    let close = |set: &mut BTreeSet<usize>| {
        let mut work: Vec<usize> = set.iter().copied().collect();
        while let Some(i) = work.pop() {
            if i < items.len() && items[i].min == 0 && set.insert(i + 1) {
                work.push(i + 1);
            }
        }
    };
    pos.insert(0);
    close(&mut pos);
    for (k, name) in kids.iter().enumerate() {
        let mut next = BTreeSet::new();
        for &i in &pos {
            if i < items.len() && items[i].names.iter().any(|n| n == name) {
                next.insert(if items[i].many { i } else { i + 1 });
            }
        }
        if next.is_empty() {
            return Err(k);
        }
        close(&mut next);
        pos = next;
    }
    if pos.contains(&items.len()) {
        Ok(())
    } else {
        Err(kids.len())
    }
}
pub const PRST: &str = " line lineInv triangle rtTriangle rect diamond parallelogram trapezoid nonIsoscelesTrapezoid pentagon hexagon heptagon octagon decagon dodecagon star4 star5 star6 star7 star8 star10 star12 star16 star24 star32 roundRect round1Rect round2SameRect round2DiagRect snipRoundRect snip1Rect snip2SameRect snip2DiagRect plaque ellipse teardrop homePlate chevron pieWedge pie blockArc donut noSmoking rightArrow leftArrow upArrow downArrow stripedRightArrow notchedRightArrow bentUpArrow leftRightArrow upDownArrow leftUpArrow leftRightUpArrow quadArrow leftArrowCallout rightArrowCallout upArrowCallout downArrowCallout leftRightArrowCallout upDownArrowCallout quadArrowCallout bentArrow uturnArrow circularArrow leftCircularArrow leftRightCircularArrow curvedRightArrow curvedLeftArrow curvedUpArrow curvedDownArrow swooshArrow cube can lightningBolt heart sun moon smileyFace irregularSeal1 irregularSeal2 foldedCorner bevel frame halfFrame corner diagStripe chord arc leftBracket rightBracket leftBrace rightBrace bracketPair bracePair straightConnector1 bentConnector2 bentConnector3 bentConnector4 bentConnector5 curvedConnector2 curvedConnector3 curvedConnector4 curvedConnector5 callout1 callout2 callout3 accentCallout1 accentCallout2 accentCallout3 borderCallout1 borderCallout2 borderCallout3 accentBorderCallout1 accentBorderCallout2 accentBorderCallout3 wedgeRectCallout wedgeRoundRectCallout wedgeEllipseCallout cloudCallout cloud ribbon ribbon2 ellipseRibbon ellipseRibbon2 leftRightRibbon verticalScroll horizontalScroll wave doubleWave plus flowChartProcess flowChartDecision flowChartInputOutput flowChartPredefinedProcess flowChartInternalStorage flowChartDocument flowChartMultidocument flowChartTerminator flowChartPreparation flowChartManualInput flowChartManualOperation flowChartConnector flowChartPunchedCard flowChartPunchedTape flowChartSummingJunction flowChartOr flowChartCollate flowChartSort flowChartExtract flowChartMerge flowChartOfflineStorage flowChartOnlineStorage flowChartMagneticTape flowChartMagneticDisk flowChartMagneticDrum flowChartDisplay flowChartDelay flowChartAlternateProcess flowChartOffpageConnector actionButtonBlank actionButtonHome actionButtonHelp actionButtonInformation actionButtonForwardNext actionButtonBackPrevious actionButtonEnd actionButtonBeginning actionButtonReturn actionButtonDocument actionButtonSound actionButtonMovie gear6 gear9 funnel mathPlus mathMinus mathMultiply mathDivide mathEqual mathNotEqual cornerTabs squareTabs plaqueTabs chartX chartStar chartPlus ";

/// (element key, attribute, type). `*` matches any element.
const ATTRS: &[(&str, &str, &str)] = &[
    ("a:off", "x", "coord!"),
    ("a:off", "y", "coord!"),
    ("a:srgbClr", "val", "rgb!"),
    ("a:prstGeom", "prst", "PRST"),
    ("a:rPr", "sz", "i 100 400000"),
    ("a:endParaRPr", "sz", "i 100 400000"),
    ("a:defRPr", "sz", "i 100 400000"),
    ("a:rPr", "b", "bool"),
    ("a:rPr", "i", "bool"),
    ("a:rPr", "u", "e none words sng dbl heavy dotted dottedHeavy dash dashHeavy dashLong dashLongHeavy dotDash dotDashHeavy dotDotDash dotDotDashHeavy wavy wavyHeavy wavyDbl"),
    ("a:rPr", "strike", "e noStrike sngStrike dblStrike"),
    ("a:rPr", "baseline", "i -100000 100000"),
    ("a:pPr", "lvl", "i 0 8"),
    ("a:pPr", "marL", "i 0 51206400"),
    ("a:pPr", "indent", "i -51206400 51206400"),
    ("a:pPr", "algn", "e l ctr r just justLow dist thaiDist"),
    ("a:pPr", "rtl", "bool"),
    ("a:ln", "w", "i 0 20116800"),
    ("a:lnL", "w", "i 0 20116800"),
    ("a:lnR", "w", "i 0 20116800"),
    ("a:lnT", "w", "i 0 20116800"),
    ("a:lnB", "w", "i 0 20116800"),
    ("a:alpha", "val", "i 0 100000"),
    ("a:gs", "pos", "i! 0 100000"),
    ("a:lin", "ang", "i 0 21599999"),
    ("a:xfrm", "rot", "i -2147483648 2147483647"),
    ("a:xfrm", "flipH", "bool"),
    ("a:xfrm", "flipV", "bool"),
    ("a:bodyPr", "anchor", "e t ctr b just dist"),
    ("a:bodyPr", "wrap", "e none square"),
    ("a:prstDash", "val", "e! solid dot dash lgDash dashDot lgDashDot lgDashDotDot sysDash sysDot sysDashDot sysDashDotDot"),
    ("a:headEnd", "type", "e none triangle stealth diamond oval arrow"),
    ("a:tailEnd", "type", "e none triangle stealth diamond oval arrow"),
    ("a:headEnd", "w", "e sm med lg"),
    ("a:tailEnd", "w", "e sm med lg"),
    ("a:headEnd", "len", "e sm med lg"),
    ("a:tailEnd", "len", "e sm med lg"),
    ("a:schemeClr", "val", "e! bg1 tx1 bg2 tx2 accent1 accent2 accent3 accent4 accent5 accent6 hlink folHlink phClr dk1 lt1 dk2 lt2"),
    ("a:buAutoNum", "type", "e! alphaLcParenBoth alphaUcParenBoth alphaLcParenR alphaUcParenR alphaLcPeriod alphaUcPeriod arabicParenBoth arabicParenR arabicPeriod arabicPlain romanLcParenBoth romanUcParenBoth romanLcParenR romanUcParenR romanLcPeriod romanUcPeriod"),
    ("a:buChar", "char", "s!"),
    ("a:tcPr", "anchor", "e t ctr b just dist"),
    ("a:tc", "gridSpan", "i 1 1000"),
    ("a:tc", "rowSpan", "i 1 1000"),
    ("a:tc", "hMerge", "bool"),
    ("a:tc", "vMerge", "bool"),
    ("a:gridCol", "w", "coord!"),
    ("a:tr", "h", "coord!"),
    ("a:latin", "typeface", "s!"),
    ("p:ph", "type", "e title body ctrTitle subTitle dt sldNum ftr hdr obj chart tbl clipArt dgm media sldImg pic"),
    ("p:cNvPr", "id", "i! 0 4294967295"),
    ("p:cNvPr", "name", "s?"),
    ("p:sldSz", "cx", "i! 914400 51206400"),
    ("p:sldSz", "cy", "i! 914400 51206400"),
    ("p:notesSz", "cx", "i! 0 27273042316900"),
    ("p:sldRg", "st", "i! 0 2147483647"),
    ("p:sldRg", "end", "i! 0 2147483647"),
    ("p:transition", "spd", "e slow med fast"),
    ("p:push", "dir", "e l u r d"),
    ("p:wipe", "dir", "e l u r d"),
    ("p:cover", "dir", "e l u r d lu ru ld rd"),
    ("p:split", "orient", "e horz vert"),
    ("p:split", "dir", "e in out"),
    ("p:zoom", "dir", "e in out"),
    ("c:barDir", "val", "e bar col"),
    ("barChart/c:grouping", "val", "e percentStacked clustered standard stacked"),
    ("lineChart/c:grouping", "val", "e percentStacked standard stacked"),
    ("areaChart/c:grouping", "val", "e percentStacked standard stacked"),
    ("c:scatterStyle", "val", "e none line lineMarker marker smooth smoothMarker"),
    ("c:radarStyle", "val", "e standard marker filled"),
    ("c:legendPos", "val", "e b tr l r t"),
    ("c:axPos", "val", "e! b l r t"),
    ("c:crossBetween", "val", "e! between midCat"),
    ("c:ptCount", "val", "i! 0 4294967295"),
    ("c:pt", "idx", "i! 0 4294967295"),
    ("c:idx", "val", "i! 0 4294967295"),
    ("c:order", "val", "i! 0 4294967295"),
    ("c:holeSize", "val", "i 1 90"),
    ("c:gapWidth", "val", "i 0 500"),
    ("c:overlap", "val", "i -100 100"),
    ("c:symbol", "val", "e! circle dash diamond dot none picture plus square star triangle x auto"),
    ("c:size", "val", "i 2 72"),
    ("c:dispBlanksAs", "val", "e span gap zero"),
    ("c:orientation", "val", "e maxMin minMax"),
    ("c:tickLblPos", "val", "e high low nextTo none"),
    ("c:majorTickMark", "val", "e cross in none out"),
    ("c:minorTickMark", "val", "e cross in none out"),
    ("c:crosses", "val", "e! autoZero max min"),
];
fn pfx(ns: &str) -> &'static str {
    match ns {
        "http://schemas.openxmlformats.org/presentationml/2006/main" => "p",
        "http://schemas.openxmlformats.org/drawingml/2006/main" => "a",
        "http://schemas.openxmlformats.org/drawingml/2006/chart" => "c",
        "http://schemas.openxmlformats.org/markup-compatibility/2006" => "mc",
        _ => "?",
    }
}
fn check_attr(v: Option<&str>, ty: &str) -> Result<(), String> {
    let (t, args) = ty.split_once(' ').unwrap_or((ty, ""));
    let (t, req) = match t.strip_suffix('!') {
        Some(t) => (t, true),
        None => (t, false),
    };
    let Some(v) = v else {
        return if req { Err("missing".into()) } else { Ok(()) };
    };
    let bad = || Err(format!("has value {v:?}"));
    match t {
        "i" => {
            let mut it = args.split(' ').map(|x| x.parse::<i128>().unwrap());
            let (lo, hi) = (it.next().unwrap(), it.next().unwrap());
            match v.parse::<i128>() {
                Ok(n) if n >= lo && n <= hi => Ok(()),
                _ => bad(),
            }
        }
        "coord" => match v.parse::<i64>() {
            Ok(n) if (-27273042329600..=27273042316900).contains(&n) => Ok(()),
            _ => bad(),
        },
        "bool" => {
            if matches!(v, "0" | "1" | "true" | "false") {
                Ok(())
            } else {
                bad()
            }
        }
        "e" => {
            if args.split(' ').any(|a| a == v) {
                Ok(())
            } else {
                bad()
            }
        }
        "rgb" => {
            if v.len() == 6 && v.bytes().all(|b| b.is_ascii_hexdigit()) {
                Ok(())
            } else {
                bad()
            }
        }
        "PRST" => {
            if PRST.contains(&format!(" {v} ")) && !v.contains(' ') && !v.is_empty() {
                Ok(())
            } else {
                bad()
            }
        }
        _ => Ok(()),
    }
}
/// Check one element tree.
pub fn check_tree(root: &El, part: &str) -> Result<(), String> {
    fn rec(e: &El, parent: &str, part: &str, depth: usize) -> Result<(), String> {
        let p = pfx(&e.ns);
        let key = format!("{p}:{}", e.name);
        let ck = format!("{parent}/{key}");
        if p != "?" {
            if let Some(m) = models().get(&ck).or_else(|| models().get(&key)) {
                if let Some(items) = m {
                    let kids: Vec<&str> = e.els().map(|c| c.name.as_str()).collect();
                    if let Err(k) = matches(items, &kids) {
                        return Err(format!("{part}: <{key}> in <{parent}>: child #{k} {:?} not allowed here; children are {kids:?}", kids.get(k).unwrap_or(&"(end)")));
                    }
                }
                // no character data in element-only content
                if !matches!(e.name.as_str(), "t") && e.kids.iter().any(|k| matches!(k, Node::Text(t) if !t.trim().is_empty())) {
                    return Err(format!("{part}: <{key}> has character data"));
                }
            }
            for (k, a, ty) in ATTRS {
                if *k == key || *k == ck {
                    check_attr(e.attr(a), ty).map_err(|m| format!("{part}: <{key}> in <{parent}> @{a} {m}"))?;
                }
            }
            if key == "a:ext" && e.attr("uri").is_none() {
                for a in ["cx", "cy"] {
                    check_attr(e.attr(a), "i! 0 27273042316900").map_err(|m| format!("{part}: <{key}> @{a} {m}"))?;
                }
            }
            if key == "a:graphicData" && e.attr("uri").is_none() {
                return Err(format!("{part}: graphicData without uri"));
            }
        }
        for c in e.els() {
            rec(c, &e.name, part, depth + 1)?;
        }
        Ok(())
    }
    rec(root, "", part, 0)
}
/// Unique non-zero drawing-object ids within one slide-like part.
pub fn check_ids(root: &El, part: &str) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    for e in root.all("cNvPr") {
        let id = e.attr("id").unwrap_or("");
        if id == "0" || id.is_empty() {
            return Err(format!("{part}: drawing object with id {id:?}"));
        }
        if !seen.insert(id.to_string()) {
            return Err(format!("{part}: drawing object id {id} used twice"));
        }
    }
    for (st, at) in [("stCxn", "id"), ("endCxn", "id")] {
        for e in root.all(st) {
            let id = e.attr(at).unwrap_or("");
            if !seen.contains(id) {
                return Err(format!("{part}: {st} refers to shape id {id} which is not on the slide"));
            }
        }
    }
    // tables: grid arity
    for t in root.all("tbl") {
        let n = t.child("tblGrid").map(|g| g.els().count()).unwrap_or(0);
        for r in t.els().filter(|e| e.name == "tr") {
            let k = r.els().filter(|e| e.name == "tc").count();
            if k != n {
                return Err(format!("{part}: table row with {k} cells in a {n}-column grid"));
            }
        }
    }
    Ok(())
}
