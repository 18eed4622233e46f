#!/usr/bin/env python3
"""Writes known_findings.json: add entries here by hand, never from a check."""
import json, os
K = []


def fixed(prop, commit, what):
    K.append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': what, 'line': f'fixed: property={prop} {commit} {what}'})


def known(prop, part, case, what):
    K.append({'property': prop, 'status': 'known', 'part': part, 'case': case, 'what': what})


fixed('C02', '040c13f', 'list bounds tests answered true for every list, also when a point was out of bounds')
fixed('C05', 'cb7b2af', 'an exactly diagonal line overshot its end by one pixel and could write over the neighbouring row or the header')
fixed('C07', '9130b74', 'ellipse outline left the ellipse, missed its side tips, and never ended for a zero half axis')
fixed('C07', '4a84167', 'ellipse bounds test compared the half axes with the wrong dimensions: pixels wrapped to other rows')
fixed('C07', '118b242', 'gradient ellipse kept drawing with negative axes after the shorter one was used up')
fixed('C06', '04d70f6', '4-bit horizontal run wholly outside painted a stray pixel or raised IndexError; a one-pixel run was not drawn')
fixed('C06', '6e038a4', 'filled rectangle on an 8-bit bitmap matched the colour index as if it were RGB')
fixed('C06', '069ff9e', 'vertical run wholly above or below the bitmap shrank the 24/8-bit buffer')
fixed('C06', 'ec12a64', 'horizontal run wholly left of the bitmap shrank the 24/8-bit buffer')
fixed('C07', 'b54cb27', 'a filled circle or ellipse wholly left or right of the bitmap painted border pixels')
fixed('C08', '99dfb82', 'region flips and mirrors of 1 and 4-bit bitmaps moved whole bytes: pixels outside the rectangle changed, pixels inside kept their order in each byte')
fixed('C10', 'a48ae15', 'resizing a 24-bit bitmap of odd width raised or lost the last pixel of a row')
fixed('C10', '00777fe', 'enlarging or upgrading a 1 or 4-bit bitmap whose rows end inside a byte misplaced pixels')
fixed('C09', 'd3a1aa4', 'iterating the colours of a 1 or 4-bit bitmap also gave the padding pixels of each row')
fixed('C09', '9e9273c', 'a copied rectangle was stored with a wrong size and pasted at a wrong place')
fixed('C09', '8d7feb5', 'a cropped 8-bit bitmap lost its palette')
fixed('C12', '22eaf87', 'erasing every nth line left out the last row')
fixed('C12', 'd584580', 'outlining or erasing lines in a rectangle changed bytes outside it')
fixed('C11', 'a9ca619', 'brightness gradients over a single row, column or pixel raised ZeroDivisionError')
fixed('C11', '5f31860', 'colour filter factors above one overflowed the byte')
fixed('C13', '29fee99', 'circular transforms compared y with the width: circles below a wide bitmap were accepted')
fixed('C11', '02d2c31', 'monochrome filter of a circle partly outside raised TypeError')
fixed('C11', 'cd08e67', 'circular filters of a circle over the right edge left the last column')
fixed('C13', '13baba9', 'circle inversion, erasing and vertical transforms moved whole bytes at 1 and 4 bits')
fixed('C13', '0bf20c1', 'pasting a circle of another bit depth raised instead of reporting it')
fixed('C13', 'e8d1cc9', 'copying and transposing a circle at 1 and 4 bits moved whole bytes')
fixed('C12', 'ce7f76d', 'outlining a circle at 1 and 4 bits compared whole bytes')
fixed('C20', '0d48b7b', 'neighbours in row or column 0 were left out')
fixed('C20', '2f59122', 'autocrop of an image that reaches the right or bottom border saved nothing')
fixed('C23', '6894061', 'determinant of a 3x3 matrix used the wrong entry in its last term')
fixed('C23', '95270d9', 'orthogonality was tested with the cross product')
fixed('C23', 'afc2eda', 'polar, cylindrical and spherical coordinates lost the quadrant and the radius')
fixed('C21', '2f73619', 'the midasc luminosity range was missing from the range table')
fixed('C22', '349fd6d', 'reversing a 1-bit buffer dropped the last pixel of each byte')
fixed('C10', 'a4dc5de', 'pixelizing a circle near the right or bottom border read outside the pixelized image')
fixed('C11', '917db1e', 'circular filters of a circle wholly left of the bitmap changed pixels of other rows')
known('C11', 'kf_exact', {'img': {'w': 3, 'h': 2, 'bits': 24, 'd': '6432'}, 'op': 'grad', 'p': [50, 100], 'whole': False, 'r': [0, 0, 2, 1]},
      'KF3: a horizontal brightness gradient leaves the top row of the rectangle unchanged (here the whole 3x2 bitmap)')
known('C11', 'kf_exact', {'img': {'w': 3, 'h': 2, 'bits': 24, 'd': '6432'}, 'op': 'filter', 'p': [0.5, 0.5, 0.5], 'whole': False, 'r': [0, 0, 2, 1]},
      'KF4: the colour filter leaves the last pixel of each row of the area unchanged (here the whole 3x2 bitmap)')
known('C06', 'kf1_exact_run', {'img': {'w': 8, 'h': 1, 'bits': 4, 'd': '00'}, 'h': True, 'at': 0, 'a': 0, 'b': 2, 'c': 15},
      'KF1: a 4-bit horizontal run of two or more pixels leaves its last pixel unpainted unless it starts at an even and ends at an odd x (here 0..2)')
fixed('C22', '1cb9275', 'reading or writing an integer of n bytes in a buffer left out the most significant byte')
fixed('C21', 'f54c753', 'thirty X11 color names gave the color of a neighbor in the list, and two names disagreed between tables')
fixed('C21', '8a17f78', 'black palette entries were never matched by nearest color, and black itself given as a list matched a non-black entry')
fixed('C28', '1f4a7bf', 'a decahedron had its ring rounded to whole numbers and could not be made at small or fractional sizes (math domain error at 0.5 and 2.5)')
known('C21', 'kf_named', ['x11', 'aquamarine'], 'KF5: the X11 color aquamarine has the value of aqua (0, 255, 255) instead of (127, 255, 212)')
fixed('C31', '1f2121b', 'the default palette given was the table of the library itself: changing it changed the palette of every later bitmap')
known('C22', 'kf2_rotatebits', [255], 'KF2: rotatebits(255) drops bit 0 and gives 127 instead of 255')
fixed('C16', '8116d7e', 'sideways italic patterns at scale 1 leaned the wrong way')
fixed('C16', 'a94fb83', 'sideways patterns with a color list changed color every bit instead of every row')
fixed('C16', '6dd705e', 'plotbmpastext left out the bottom row')
fixed('C16', 'b9f42d3', 'upside down strings of dots ran the other way than upside down strings')
fixed('C15', 'f2d21a6', 'a bezier curve ignored its last control point')
fixed('C15', '332ea62', 'small arcs lacked one or both spokes')
fixed('C15', '08e87a7', 'drawarc ignored showoutline and painted the filling over the outline')
fixed('C15', 'e1f77cd', 'a filled arc too narrow for any pixel raised IndexError')
fixed('C25', '36f1b13', 'regular polygons whose number of sides does not divide 360 had an extra corner')
fixed('C25', 'df161f4', 'the circle involute was a spiral of another equation')
fixed('C25', 'c833cfc', 'hypotrochoids turned the pen the wrong way')
fixed('C25', '5556947', 'spirographs turned the pen the wrong way')
fixed('C25', '68354ec', 'egg curves were shorter than asked for and of another shape')
fixed('C20', 'cf61d31', 'reducing an image to more colors than it has stored the default palette instead of its own')
fixed('C20', '3683a1d', 'autocrop of an image without edges raised IndexError')
fixed('C19', '6a35e84', 'sphere2file of a missing input raised instead of reporting it')
fixed('C19', 'f39089c', 'colorcycle2dir could not save into an absolute directory')
fixed('C19', '36f0f34', 'colorcycle2dir of a 1 or 24-bit file made a directory and raised TypeError')
fixed('C26', 'af9e4ad', '8-bit fractals wrote outside the bitmap or failed there and above 255 iterations')
fixed('C26', '39b06d2', 'superellipse fractals raised TypeError below 24 bits')
fixed('C26', 'a5fc071', 'Newton fractals of two or three roots could not be saved below 24 bits')
fixed('C27', '4d074d3', 'symmetric icon attractors with o not zero lost their symmetry')
fixed('C27', '6f63ec0', 'iterated function systems drawn off the origin strayed from their attractor')
fixed('C27', '147b795', 'turned Hilbert curves left bitmaps that are not square')
fixed('C28', '1759820', 'tetrahedra, hexahedra and spheres showed their back faces')
fixed('C28', '7547f96', 'the south pole of a sphere ignored its center')
fixed('C28', '346f6ad', 'surface plots whose width is not a multiple of the step had wrong patches or failed')
fixed('C29', '4cc6723', 'a pie of two equal halves showed only one of them')
fixed('C29', '60bf5c9', 'numbers at repeated places repeated the first number')
fixed('C29', '598b4e0', 'grid lines of an axis did not meet its tick marks')
fixed('C29', '764de78', 'points outside a scatter plot were drawn in the corner of the bitmap')
fixed('C29', 'eddba2d', 'regression lines starting above a scatter plot ran from the corner of the bitmap')
fixed('C18', '1845022', 'elapsed times dropped the leading zeros of their fraction')
fixed('C13', '228e143', 'quadrant mirrors of a circle applied their vertical half below 8 bits while refusing the horizontal one')
fixed('C07', '330714d', 'gradthickellipserot ignored its gradient function and always used the linear ramp')
fixed('C03', 'aea23be', 'outlines of circles and ellipses on 8-bit bitmaps raised OverflowError for a color beyond 255 instead of reducing it')

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json'), 'w') as f:
        json.dump(K, f, indent=1)
        f.write('\n')
