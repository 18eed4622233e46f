"""What each property says: the source of properties.jsonl and MANIFEST.json (written by gen.py)."""
S = {}


def add(pid, title, statement, over, qtext, why, files, mech, note=''):
    S[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['pythonbmp/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)


I, H = ['inputs'], ['inputs', 'histories']

add('C01', 'A bitmap survives saving and loading unchanged',
    'Saving a bitmap to a file and loading it back gives the same width, height, bit depth, palette and pixels, and the file is a well-formed '
    'Windows BMP any reader decodes to the same image. A standard 1, 4, 8 or 24-bit BMP file written by another program loads as the image it holds, '
    'and a file that is not a BMP is reported and never taken for one.',
    I, 'every bitmap size, depth, palette and content; every file name the library accepts',
    'The tests save and reload a handful of fixed images and compare bytes with stored output; they never vary size, padding, palette or content.',
    ['BITMAPlib.py', 'fileutils.py', 'bmpconstants.py'],
    [('header and palette layout', 'BITMAPlib.py: _setmeta, newBMP, loadBMP, saveBMP'), ('row padding', 'BITMAPlib.py: _xbytes, _pdbytes')])

add('C02', 'New bitmaps have exactly the geometry and metadata asked for',
    'A new bitmap of any size and depth is blank, has the default palette of its depth, the right file size, row padding and header fields, and reports '
    'its own width, height, depth, centre, corners and colour count correctly. Bounds tests answer true exactly for pixels inside it, and a new bitmap made '
    'from an existing one takes over its dimensions.',
    I, 'every width, height and bit depth; every point or list of points around the edges',
    'The tests create a few sizes; row padding depends on width modulo 32, 8 or 4 by depth, and edge answers on exact coordinates.',
    ['BITMAPlib.py', 'bmpconstants.py', 'primitives2D.py'],
    [('size and padding arithmetic', 'BITMAPlib.py: _getbmflsz, _bmmeta, newBMP'), ('bounds tests', 'primitives2D.py: isinrectbnd, listinrecbnd')])

add('C03', 'Writing a pixel changes that pixel and nothing else',
    'A pixel written inside the bitmap reads back as the value written (reduced to the depth), every other pixel, the header and the palette keep their '
    'value, and a write outside the bitmap changes nothing. Writing an RGB colour to a palette bitmap picks a nearest palette entry, and reading RGB gives '
    'the palette colour of the stored index. Every shape and text drawn in a colour beyond the depth is drawn in the reduced colour.',
    H, 'every depth, size, position (edges and outside included), colour, palette and sequence of writes',
    'Tests write few pixels at fixed places; packing of 1 and 4-bit pixels makes neighbours share bytes, so an error shows only for some alignments.',
    ['BITMAPlib.py', 'colors.py', 'inttools.py'],
    [('byte offset and bit packing', 'BITMAPlib.py: plotxybit, getxybit, _BMoffset*'), ('palette matching', 'colors.py: matchRGBtopal')])

add('C04', 'Palette operations read and write exactly the entries they name',
    'Setting, reading, replacing, shifting, cycling, tinting or copying palette entries affects exactly the stated entries with the stated colours, '
    'and never alters pixels, geometry or other entries. Palettes derived from a colour count or similarity threshold hold colours of the source in the documented order, none closer than the threshold to another, and leave later entries as they were.',
    I, 'every palette bitmap, palette list, index, shift and adjustment factor',
    'Tests set a few fixed palettes and compare final images; wrong entries that no tested pixel uses stay invisible.',
    ['BITMAPlib.py', 'bmppal.py', 'colors.py'],
    [('palette bytes at 54', 'BITMAPlib.py: setRGBpal, getRGBpal, setbmppal*, palshift'), ('default palettes', 'bmppal.py')])

add('C05', 'Straight lines run from end to end within a pixel of the ideal line',
    'A line, polyline, polygon outline, arrow or parallelogram between points of the bitmap paints both endpoints and one pixel per step along its longer axis, each within '
    'a pixel of the exact segment, and nothing else; endpoints outside are moved to the nearest border pixel. A thick line paints the band of its pen radius '
    'around the segment, clipped to the bitmap.',
    I, 'every pair or list of endpoints (all octants, degenerate, outside), depth, colour and pen radius',
    'Tests draw a few fixed lines; octant handling, diagonals, single points and clamping depend on the exact endpoints.',
    ['BITMAPlib.py', 'primitives2D.py'],
    [('line stepping', 'BITMAPlib.py: line; primitives2D.py: iterline'), ('pen', 'BITMAPlib.py: thickroundline, roundpen')])

add('C06', 'Axis-parallel runs, rectangles, grids and dots paint exactly their pixels',
    'Horizontal and vertical runs, filled and outlined rectangles, grids, tick marks and dots paint exactly the pixels of the shape that lie inside the bitmap in the given colour and leave every '
    'other pixel, the header and the palette alone. Corners and run ends may come in any order; a filled rectangle or grid partly outside is refused with a message and changes nothing.',
    I, 'every depth, alignment, position (inside, crossing each edge, fully outside), extent and colour',
    'Tests draw few runs, at alignments that hide byte-packing errors, and none that lies fully outside the bitmap.',
    ['BITMAPlib.py', 'paramchecks.py'],
    [('byte runs and clipping', 'BITMAPlib.py: horiline, vertline, filledrect'), ('bounds guard', 'paramchecks.py: entirerectinboundary')],
    'Known finding KF1: 4-bit horizontal runs miss their last pixel for most alignments (pinned by existing tests); the check tolerates exactly that pixel.')

add('C07', 'Circles and ellipses follow their equations and stay inside the bitmap',
    'Outlined, filled, thick and gradient circles and ellipses paint the pixels of the shape: an outline stays within a pixel of the curve, is symmetric, closed and touches its four tips, '
    'a filled one is exactly the area its outline encloses, and only the part inside the bitmap is drawn. Every other pixel, the header and the palette stay as they were, for any centre and radius.',
    I, 'every centre (inside, partly outside, far away), radius, half axis including zero and one, depth and colour',
    'Tests draw a few large shapes well inside; clipping, tiny radii and thin ellipses take separate code paths.',
    ['BITMAPlib.py', 'primitives2D.py', 'paramchecks.py'],
    [('circle stepping and fill', 'BITMAPlib.py: circle, filledcircle, gradcircle; primitives2D.py: itercircle*'),
     ('ellipse stepping', 'BITMAPlib.py: ellipse, filledellipse, gradellipse; primitives2D.py: iterellipse*')])

add('C08', 'Flips and mirrors move every pixel to its reflected place',
    'Flipping or mirroring a bitmap or a rectangle of it (corners in any order) puts at every pixel exactly the pixel the reflection names and changes nothing outside the rectangle, the header or the palette; '
    'flipping twice restores the image, and a rectangle that leaves the bitmap is refused with a message. Exchanging x and y reflects the whole image about a diagonal.',
    I, 'every size (odd and even, unaligned widths), depth, content and rectangle',
    'Tests compare a few images of one size; the bulk paths depend on alignment, parity of the size and depth.',
    ['BITMAPlib.py', 'bufferflip.py'],
    [('row and half-row swaps', 'BITMAPlib.py: verttrans*, horizontalbulkswap, mirror*'), ('buffer reversal', 'bufferflip.py: flipbuf, rotatebitsinbuf')])

add('C09', 'Cropping, copying and pasting parts moves exactly those pixels',
    'Cropping gives a new bitmap holding exactly the named rectangle, its depth and its palette. A copied rectangle pasted elsewhere, from memory or through a file, reproduces its pixels '
    'at the named place and changes nothing else; a rectangle that does not fit, a wrong depth or a file that is not a selection is refused with a message and the bitmap stays as it was. Iterating '
    'a bitmap or a rectangle gives every pixel once with its colour and no padding; raw row and column access read and write exactly the bytes named.',
    I, 'every source and target size, depth, alignment, rectangle with corners in any order, place and palette',
    'Tests copy one rectangle at an aligned place; odd offsets at 1 and 4 bits split bytes and the row padding shows only for some widths.',
    ['BITMAPlib.py', 'bufferflip.py'],
    [('crop, copy and paste', 'BITMAPlib.py: cropBMP, copyrect, pasterect, convertselection2BMP'), ('iteration', 'BITMAPlib.py: iterimageRGB, iterregion'),
     ('raw access', 'BITMAPlib.py: BMPbitBLTput, BMPbitBLTget, vertBMPbitBLTget')])

add('C10', 'Resizing and pixelizing keep every pixel where scaling puts it',
    'Enlarging a bitmap n times makes every pixel an n by n block of its own value and keeps depth and palette. Shrinking n times (24-bit) makes every pixel the rounded mean of its n by n block, '
    'pixelizing shows that mean in the whole block, and bitmaps of another depth are refused with a message. The 24-bit copy of a palette bitmap shows the same colours. Magnifying or pixelizing a '
    'circle changes only that circle.',
    I, 'every size (multiples of the factor or not), depth, factor, palette and content',
    'Tests scale a few images by one factor; leftover columns and rows, odd widths and packed depths take other paths.',
    ['BITMAPlib.py', 'bufresize.py', 'buffersplit.py'],
    [('row splitting and averaging', 'bufresize.py; buffersplit.py'), ('scaling drivers', 'BITMAPlib.py: resizeNtimesbigger, resizeNtimessmaller, pixelizenxn, upgradeto24bitimage')])

add('C11', 'Filters adjust each pixel by their formula and only inside their area',
    'Monochrome, colour, gamma, brightness and threshold filters, brightness gradients and inversion give every pixel of the named area (bitmap, rectangle with corners in any order, or circle, which '
    'may be partly outside) the value its formula gives, saturated at 0 and 255, and change nothing outside the area, the header or the palette. Inverting twice restores the image. '
    'A 24-bit filter on another depth, or a rectangle that leaves the bitmap, is refused with a message.',
    I, 'every image, area (inside, crossing each edge, outside), filter and parameter value, factors above one and zero-width areas included',
    'Tests filter one image with one parameter; saturation, single rows or columns and areas over an edge take other paths.',
    ['BITMAPlib.py', 'colors.py'],
    [('filters over areas', 'BITMAPlib.py: *filterto24bit*, *adjto24bit*, _usenopar24btfn2circreg, _use24btfn2circreg'), ('channel formulas', 'colors.py: monochromefilter, colorfilter, gammacorrect, brightnessadjust, thresholdadjust')],
    'Known findings KF3 and KF4 (pinned by existing tests): a horizontal gradient leaves the top row and the colour filter the last pixel of each row; exactly those pixels are allowed for.')

add('C12', 'Erasing lines and outlining change exactly the pixels they name',
    'Erasing every nth row of a bitmap, a rectangle or a circle sets exactly the named rows (between the sides of the area) to the given byte pattern. Outlining replaces every pixel of the area that '
    'differs from its neighbour by the outline colour rule and blanks the others. Nothing outside the area, no header field and no palette entry changes, and an area that leaves the bitmap is '
    'refused with a message.',
    I, 'every size, depth, alignment, area, line spacing and offset, pattern and content',
    'Tests erase and outline one image at one spacing; packed depths split bytes at the sides of the area and the last rows depend on parity.',
    ['BITMAPlib.py'],
    [('line erasing', 'BITMAPlib.py: erasealternatehorizontallines*, eraseeverynthhori*'), ('outlining', 'BITMAPlib.py: outline, outlineregion, outlinecircregion')])

add('C13', 'Circular transforms move pixels only within their circle',
    'Flipping, mirroring and transposing a circle of a bitmap puts at every pixel of the circle the pixel the transform names and leaves everything outside the circle as it was. A circle copied '
    'elsewhere shows the pixels of the original there. A circle that does not fit, a wrong depth or coordinates that are not integers are refused with a message and the bitmap stays as it was.',
    I, 'every depth, size, content, centre and radius (inside, touching and crossing edges)',
    'Tests transform one circle in one image; packed depths, circles at edges and the sides of each row take other paths.',
    ['BITMAPlib.py', 'paramchecks.py', 'bufferflip.py'],
    [('row-wise circle transforms', 'BITMAPlib.py: flip*circregion, mirror*incircregion, copycircregion'), ('circle bounds guard', 'paramchecks.py: entirecircleisinboundary')])

add('C14', 'Gradient fills and strokes follow their ramp',
    'A gradient rectangle or background gives every pixel the colour its ramp (linear or smoothstep, one colour by luminosity or two colours) has at that column or row. A gradient stroke (dots, lines, '
    'polyline) is the plain stroke repeated with the pen shrinking to one while the colour runs along the ramp. Pixels outside, header and palette stay as they were; a depth that cannot show it '
    'or a rectangle that leaves the bitmap is refused with a message.',
    I, 'every depth, size, rectangle, direction, ramp function, luminosity range, colour factors and pen radius',
    'Tests draw a few fixed gradients; rounding, single rows and columns, clipping and the order of layers depend on the values.',
    ['BITMAPlib.py', 'mathlib.py', 'colors.py'],
    [('gradient rectangles', 'BITMAPlib.py: filledgradrect, filleddichromaticgradrect, fillbackgroundwith*'), ('gradient pens', 'BITMAPlib.py: gradthick*, gradvert, gradplotlines')])

add('C21', 'Colours convert, match and mix by their formulas',
    'Packing a colour into an integer or byte array and unpacking it gives the same channels; splitting it into fractions and luminosity and mixing them gives it back. A colour is matched to the nearest '
    'palette entry, itself if present. Hue, saturation and lightness, monochrome and two-colour palettes, gamma, brightness, threshold and colour filters follow their formulas per pixel and saturate at '
    '0 and 255. Every named colour has its own value, the same in all its tables.',
    I, 'every colour, fraction, palette, parameter, buffer length and colour name',
    'Tests use the colour functions only through a few filtered images and three named colours.',
    ['colors.py', 'colordict.py', 'X11colordict.py', 'XKCDcolordict.py'],
    [('conversion, matching, palettes', 'colors.py'), ('named colours', 'colordict.py; X11colordict.py; XKCDcolordict.py')],
    'Known finding KF5 (pinned by an existing test): the X11 name aquamarine gives the colour of aqua.')

add('C22', 'Integers, bits, nibbles and pixels keep their value and order in buffers',
    'An integer written little-endian to n bytes of a buffer reads back and changes no other byte. Packing bits or nibbles undoes unpacking; enlarging a row n times repeats every pixel n times in order at '
    'each depth; splitting takes every nth item; shrinking gives the rounded mean of each block; reversing a row reverses its pixels and twice restores it.',
    I, 'every value, byte count, offset, row content, factor and depth',
    'Tests reach these helpers only through whole images of one aligned width.',
    ['inttools.py', 'bufresize.py', 'buffersplit.py', 'bufferflip.py', 'conditionaltools.py', 'dicttools.py', 'chartools.py'],
    [('integers in buffers', 'inttools.py'), ('packing and enlarging', 'bufresize.py'), ('splitting', 'buffersplit.py'), ('reversing', 'bufferflip.py')],
    'Known finding KF2 (pinned by existing tests): mathlib.rotatebits drops the lowest bit of an odd byte.')

add('C23', 'Vector algebra, coordinate changes and statistics are mathematically right',
    'Vector sums, products, limits, lengths, distances, angles, cross products and determinants have their defined values. Polar, cylindrical and spherical coordinates describe the point in every quadrant '
    'and convert back to it; rotation turns by the given angle. Mean, deviation, regression, correlation and t statistic are those of the data, and distance tables and bounds cover every point.',
    I, 'every vector, point in any quadrant or on an axis, angle and data set for which the quantity is defined',
    'No test covers the mathematics; sign and quadrant errors show only for some inputs.',
    ['mathlib.py'],
    [('vectors and coordinates', 'mathlib.py: addvect .. rotvec2D'), ('statistics', 'mathlib.py: mean, LSMslope, PearsonsR, StdDev, TTest')])

add('C24', 'Interpolation, Fourier transform, root finding and histograms are right',
    'Linear and smoothed interpolation meet both ends, never leave or reverse between them, follow their polynomial, and their inverses undo them. The Fourier transform of 2^k values is the discrete '
    'Fourier sum and the inverse restores the values. A root that is returned is a root, none is invented, and the search stops within its limit. A 2D histogram counts every point once, in its bin.',
    I, 'every pair of ends and fraction, vector of 2^k values, function and start, point set and bin count',
    'No test covers these functions; errors at the ends, for swapped ends or for single values stay unseen.',
    ['mathlib.py'],
    [('interpolation', 'mathlib.py: lerp, invlerp, smooth*'), ('transform', 'mathlib.py: applyfft'), ('roots', 'mathlib.py: newtonmethod'), ('histogram', 'mathlib.py: histogram2D*')])

add('C15', 'Polygons, arcs, splines, squircles and orbs cover their ideal shape',
    'A filled polygon, parallelogram or sector paints every pixel more than one inside its edges and none more than one outside (two for the last two), and its corners; a filled polygon partly outside is refused with a '
    'message. An arc paints the circle between its angles (clockwise from the top) and its two spokes, outline only when asked. A Bezier curve joins its first and last control point, a spline follows the '
    'uniform cubic B-spline, both without gaps and with the pen asked for. A thick polygon outline paints all its sides, the closing one too. Squircles follow their equation and orbs darken evenly outwards. Nothing else changes.',
    I, 'every corner list, pair of angles, control point list, centre, radius, pen, colour and bitmap of depth 1, 4, 8 or 24',
    'No existing test draws any of these shapes; errors show only for particular slopes, angles, radii or numbers of points.',
    ['BITMAPlib.py', 'primitives2D.py', 'solids3D.py'],
    [('polygon filling', 'BITMAPlib.py: plotpolyfill, fillboundary; solids3D.py: polyboundary, fillpolydata'), ('arcs', 'BITMAPlib.py: drawarc; primitives2D.py: arcvert'),
     ('curves', 'primitives2D.py: iterbeziercurve, iterbspline'), ('squircles and orbs', 'BITMAPlib.py: squircle, orb')],
    'A concave polygon is filled from its leftmost to its rightmost edge in every row; a sector wider than half a turn likewise.')

add('C16', 'Text and 8-bit patterns show exactly their bits, one cell per bit',
    'A character or 8-bit pattern drawn plain, italic, reversed, upside down, rotated or sideways, as squares or dots and at any scale, paints one cell for every set bit at the place the orientation gives it, in the row '
    'colour asked for, and nothing else. A string puts its characters one advance apart in reading order of its orientation, starting a new line at each line break, and text files of a bitmap or pattern '
    'show every bit of it.',
    I, 'every pattern, string, font, orientation, scale, spacing, colour or colour list, position and bitmap of any depth',
    'Existing tests draw a few whole strings at one place; clipping, colour lists, scale one and odd bits are not among them.',
    ['BITMAPlib.py', 'fonts.py', 'textgraphics.py', 'chartools.py'],
    [('patterns', 'BITMAPlib.py: plot*8bitpattern*'), ('strings', 'BITMAPlib.py: plotstring*'), ('fonts', 'fonts.py'), ('text output', 'textgraphics.py, BITMAPlib.py: plotbmpastext')],
    'Known finding KF2 (see C22): reversed and rotated text drops bit 0 of odd font bytes; exactly those cells are optional.')

add('C25', 'Point generators yield exactly the points of their shape',
    'Lines, circles, ellipses (plain or turned), parallelogram strokes and tick rows yield their points without gaps or strays. A regular polygon has as many corners as asked for, equally spaced. Spirographs, '
    'Lissajous curves, involutes, epicycloids, hypotrochoids, superellipses, squircles, gears, hearts, eggs, flowers and spirals yield their equation evaluated step by step, as integers within one of it. '
    'Neighbours, bounds, corner sorting and mirroring give every point they name and no other.',
    I, 'every centre, radius, axis, angle, number of sides, shape parameter, step and limit',
    'No existing test looks at these points; a wrong sign, step or off-by-one still draws a plausible picture.',
    ['primitives2D.py', 'mathlib.py', 'BITMAPlib.py'],
    [('rasterisers', 'primitives2D.py: iterline, itercircle*, iterellipse*'), ('curves', 'primitives2D.py: iterspirograph .. eggcurvevert, iterflower'),
     ('helpers', 'primitives2D.py: itergetneighbors, sortrecpoints, isinrectbnd, entirecircleisinboundary')],
    'Whether a coordinate is rounded or cut to an integer is left open.')

add('C20', 'Edges, colour regions, comparison, autocrop and reduction are exact',
    'Every point named as an edge has a neighbour further than the threshold from it, and every pixel with such a neighbour has one named; a colour region holds exactly the pixels closer than the threshold; '
    'histograms and iterators count every pixel once. Comparing two files saves their exclusive-or or and, and refuses other sizes or depths. Autocrop keeps everything from the first to the last edge. Reducing '
    'a 24-bit file gives every pixel a nearest colour of the palette it stores. Inputs are never changed.',
    I, 'every bitmap of any size and depth, threshold, colour, pen and pair of files',
    'Existing tests run some of these on one picture of one size and compare whole files; borders, widths with padding and plain images are not among them.',
    ['BITMAPlib.py', 'primitives2D.py', 'colors.py', 'dicttools.py'],
    [('edges and regions', 'BITMAPlib.py: iterimagedgevert, iterimageregionvertbyRGB'), ('histogram and iterators', 'BITMAPlib.py: colorhistogram, iterimageRGB, iterimagecolor'),
     ('files', 'BITMAPlib.py: imagecomp, autocropimg2file, reduce24bitimagebits, imgregionbyRGB2file')],
    'Reduction to 1 bit is random by design; only black staying black is checked there.')

add('C19', 'File-to-file operations save exactly what the in-memory operation gives',
    'Every operation taking an input and an output file saves the bitmap its in-memory counterpart makes of the input, and nothing else: the input file stays as it was, a missing input is reported and saves nothing, '
    'an operation for 24-bit bitmaps refuses other files with a message. Colour adjustments of a file treat every pixel of a 24-bit bitmap and every palette entry of the others. A colour cycle saves one frame for every '
    'rotation of the palette into a new directory, or an existing one when allowed.',
    I, 'every file wrapper, input bitmap of any size and depth, area, parameter, existing or missing files',
    'Existing tests compare a few wrappers with stored files for one picture; other depths, areas, parameters and failures are not among them.',
    ['BITMAPlib.py', 'paramchecks.py', 'fileutils.py'],
    [('wrappers', 'BITMAPlib.py: *2file, _use*fn*sv'), ('guards', 'paramchecks.py: checklink')],
    'What the in-memory operations do is decided by the other properties.')

add('C26', 'Escape-time fractals show the value of the equation at every point',
    'Every fractal of the Mandelbrot, Julia, multicorn, biomorph, tetration, trigonometric, lambda, tree, dragon, n-gon, curve and xor families gives each point of its area exactly one value: the '
    'number of steps (or the residue) its equation gives at the matching point of the domain. Plotting shows that value in the shade or palette entry it stands for and changes nothing outside the area '
    'or the bitmap; saving stores the size, depth and palette asked for. Newton fractals shade each point by the root it reaches and the steps it needs and leave the others alone.',
    I, 'every fractal, parameter, domain, area, depth, colors and limit of iterations',
    'Existing tests compare one picture per fractal with a stored file: one parameter, one domain, the whole bitmap, one depth.',
    ['fractals.py', 'BITMAPlib.py', 'mathlib.py'],
    [('equations', 'fractals.py: multibrot .. marekdragon, newton'), ('areas', 'fractals.py: mapfractaldomain, itermultifractal*'), ('plots', 'BITMAPlib.py: plotmultifractal*, newtonsfractal, save*fractal2file')],
    'Points whose value changes when moved by 1e-11 are left out: rounding decides there.')

add('C27', 'Recursive curves, function systems and attractors follow their definition',
    'A Hilbert curve of order n visits the middle of each of the 4^n cells once, always stepping to a neighbour, in either orientation and for any width and height. A Koch curve replaces every segment by '
    'four with an equilateral bump; a snowflake is three of them, bumps outwards. Points of an iterated function system lie on its attractor, wherever it is drawn, and reach all of its '
    'well-visited parts. Every point of an attractor follows from the one before by its equation; its picture counts the points in each cell. Saved pictures show exactly these strokes.',
    I, 'every order, size, end point, angle, pen, system of maps, attractor parameter and depth',
    'Existing tests compare a handful of pictures with stored files, none of them off the origin, not square, or of a symmetric icon with rotation; ferns and most attractors have none.',
    ['fractals.py', 'BITMAPlib.py', 'mathlib.py'],
    [('curves', 'fractals.py: hilbertvert, koch*'), ('systems', 'fractals.py: iterIFS, getIFSparams; BITMAPlib.py: IFS, fern'), ('attractors', 'fractals.py: *attractorlist; BITMAPlib.py: plotattractor*')],
    'Function systems draw at random; the coverage test fails by chance with probability below 1e-9.')

add('C28', 'Solids are closed, turn as rigid bodies and show exactly their front faces',
    'The faces of every predefined solid close it: each edge is shared by two faces and all faces turn outwards; corners lie on the sphere, cylinder, cone or box asked for. Perspective turns points as a rigid '
    'body, moves them and projects them onto the plane at the given distance. Exactly the faces turned to the viewer are kept, in order and with their normals. A surface plot has a corner on the function '
    'for every grid point and a patch for every grid square. The picture shows each kept face filled by how it faces the viewer and outlined as asked.',
    I, 'every solid, size, center, step, rotation, displacement, distance, depth and color factor',
    'Existing tests do not use the 3D part at all.',
    ['solids3D.py', 'mathlib.py', 'BITMAPlib.py'],
    [('solids', 'solids3D.py: *vert, *vertandsurface, getshapesidedict'), ('view', 'solids3D.py: rotvec3D, perspective, gensides'), ('pictures', 'BITMAPlib.py: plot3d, plot3Dsolid')],
    'Faces nearly edge-on and sphere patches that are not flat may be shown or not.')

add('C29', 'Axes, scatter plots and pie charts show their data at its place',
    'An axis has an arrow to each limit, a tick every step, the number of the series at each tick and, if asked, grid lines through the ticks; it returns the coordinate system it draws. A scatter plot marks every '
    'point within the limits where that system puts it, reports the others, and draws the least squares line over the x axis as far as it stays below the top. A pie has slices clockwise from the top, '
    'each as wide as its share of the total and filled with its own colour, and nothing outside its circle changes.',
    I, 'every bitmap, origin, step, limit, value range, list of points or shares, colour and depth',
    'Existing tests do not draw any chart.',
    ['BITMAPlib.py', 'charts.py', 'primitives2D.py', 'mathlib.py'],
    [('axes', 'BITMAPlib.py: XYaxis, numbervert, vertlinevert, horilinevert'), ('scatter plots', 'BITMAPlib.py: XYscatterplot, userdef2Dcooordsys2screenxy'), ('pies', 'BITMAPlib.py: piechart; charts.py: genpiechartdata')],
    'Pixels within about two pixels of the border of two slices may belong to either.')

add('C18', 'Refused calls say why and change nothing; accepted calls pass through',
    'A function limited to a bit depth, to integer coordinates or to areas inside the bitmap prints the reason and changes nothing when called otherwise, and its guard passes every argument and the result '
    'through when the call is right, up to the last pixel of the bitmap. Functions of files report missing files and do not run. Elapsed times read as the time that passed; timed functions behave as the '
    'function they time; the description of a function shows its parameters and documentation.',
    I, 'every guard and guarded function, depth, type of coordinates, area inside, at and beyond each border',
    'Existing tests call guarded functions with valid arguments only.',
    ['paramchecks.py', 'fileutils.py', 'proctimer.py', 'funcmeta.py', 'messages.py', 'BITMAPlib.py'],
    [('guards', 'paramchecks.py: func*, entire*inboundary, intcircleparam*'), ('files', 'fileutils.py: checklink, checklinks'), ('timers', 'proctimer.py: hhmmsselaspedtime, functimer')])

add('C17', 'Any history of operations on any number of bitmaps ends in the right state',
    'However bitmaps are made, drawn on, reflected, inverted, cropped, copied, pasted, enlarged, upgraded, recoloured, saved and loaded, after every step each of them is a well formed bitmap showing exactly the '
    'result of its own history: an operation on one never shows on another, a selection or a file keeps what it held when it was taken, a shape covers the same pixels whatever was there before, and '
    'reading changes nothing.',
    H, 'sequences of up to thirty operations on up to three bitmaps of any size and depth',
    'Existing tests apply one operation to one fresh picture; shared state, aliases and damaged headers or padding show only in sequences.',
    ['BITMAPlib.py', 'bmppal.py', 'bufferflip.py', 'fileutils.py'],
    [('state', 'BITMAPlib.py: all operations on the buffer'), ('selections and files', 'BITMAPlib.py: copyrect, pasterect, crop, saveBMP, loadBMP')],
    'Single operations are decided in more depth by the other properties.')

add('C30', 'An optional argument left out counts as its documented value',
    'Every function that takes optional arguments does without them exactly what it does with the values its signature documents: texts are saved at 24 bits on black, fractals at their own depth with 255 steps '
    'and their own escape limit, curves at one bit with a pen of 1, circles and ellipses as outlines, gradients as linear ramps, and palettes shifted by one entry, scaled by one or by 20. '
    'Giving only some of them leaves the others at theirs.',
    I, 'every function with optional arguments, any required arguments',
    'Existing tests compare a few pictures drawn with all arguments given.',
    ['BITMAPlib.py', 'fractals.py', 'colors.py', 'mathlib.py'],
    [('saved texts, curves and fractals', 'BITMAPlib.py: plot*string*2file, save*2file'), ('values', 'fractals.py: *julia, *biomorph, marekdragon, koch, duffingattractorlist'), ('drawing and palettes', 'BITMAPlib.py: circle, ellipse, drawvec, plotlines, grad*, sphere, palshift*, colorcycle2dir')])

add('C31', 'Calls change only what they may and depend only on their arguments',
    'A function changes the bitmap, buffer or list it is documented to write, and no other argument: lists of points, colours, factors, palettes, tables and the bitmaps, selections and '
    'buffers it only reads stay as they were. Made again with equal arguments, also after other calls, it does and gives the same (random drawings with the same random state). '
    'Lists, tables and buffers it returns are the caller\'s own: changing them never changes what later calls give.',
    H, 'every function the other properties call, with all their generated arguments, called again in any order',
    'A test looks at the result of one call; whether an argument was sorted or shortened on the way, or a table kept between calls, shows only to the caller who uses it again.',
    ['BITMAPlib.py', 'primitives2D.py', 'solids3D.py', 'fractals.py', 'mathlib.py', 'colors.py', 'charts.py', 'bufresize.py', 'buffersplit.py'],
    [('shared tables', 'colors.py: getdefaultbitpal; bmppal.py: bmpstdpal; fractals.py: getIFSparams, funcparamdict; solids3D.py: getshapesidedict'),
     ('arguments that are lists', 'primitives2D.py: *vert, sortrecpoints; mathlib.py: addvect*, roundvect*, recvert; solids3D.py: perspective, zlevelcoords; BITMAPlib.py: plotpoly*, gradvert')])
