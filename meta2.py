prop('C12', 'Palette colours interpolate linearly between the segment ends',
     'The colour of a data value is the linear interpolation between the two end colours of the segment that contains '
     'it, clamped to the first and last colour outside the data range, with the requested colour for missing data and '
     'at least as many levels as the requested resolution needs; float, 0-255, array and hex forms describe the same '
     'colour. This holds for palettes built from sequences, presets, files and colour maps, also on a logarithmic '
     'scale and after the data range is reset. Sequences of different lengths, unknown presets and unknown formats are '
     'rejected.',
     IC, 'every data value and segment colours, four segment layouts', 'Tests look at fifteen values.',
     ['impactutils/colors/cpalette.py'], [('segment dictionary and normalisation', 'cpalette.ColorPalette')],
     'matplotlib colour map modelled as exact piecewise-linear; replays allow its quantisation.')
TR = 'impactutils/transfer/'
prop('C16', 'Senders accept complete requests and reject incomplete ones',
     'A sender is built exactly when every required property of its kind is given and every named file and directory '
     'exists; otherwise it raises the error for the missing property or file. The files it will send are those given '
     'plus every file below its directory, each once, and the lists the caller passed in are left alone. The factory '
     'returns the sender class for each known kind and rejects every other name.',
     IC, 'every subset of properties, every file name and kind name within the bounds',
     'Tests build one or two senders of each kind.',
     [TR + 'sender.py', TR + 'factory.py'], [('validation and directory walk', 'sender.Sender'), ('lookup', 'factory.get_sender_class')],
     'File system model; names of 1..2 characters; witnesses replayed on a real scratch directory.')
prop('C17', 'Copying delivers every file whole, once, at its place',
     'Copying files and a directory puts every file under the remote directory with its content, the structure below '
     'the local directory preserved, counts them exactly, leaves everything else there alone and removes a previous '
     'cancel marker. Cancelling creates the marker with the given text. When an operation fails part-way the send '
     'raises, and no file under its final name is partial: it is the old one, the new one, or absent.',
     IF, 'every name and content within the bounds, five spellings of each directory, a failure at every operation',
     'Tests copy one tree; no test makes an operation fail.',
     [TR + 'copysender.py', TR + 'sender.py'], [('relative paths, temporary name and rename', 'copysender.CopySender')],
     'File system model; a tree of three files; names of 1 (thorough 2) characters.')
prop('C18', 'FTP sending delivers every file and reports every failure',
     'Sending by FTP puts every given file, and every file below the local directory at its relative place, under the '
     'remote directory with its exact content, creating directories as needed, and reports their number; cancelling '
     'writes the marker there. If the server refuses any step the send raises: a file that did not arrive is never '
     'counted as sent.',
     IF, 'every name and content within the bounds, five spellings of the remote directory, every refused request',
     'No test runs a send (it needs a server).',
     [TR + 'ftpsender.py'], [('directory navigation and storing', 'ftpsender.FTPSender')],
     'The server is a model of an FTP directory tree, the same in symbolic runs and replays.')
prop('C19', 'Sending over ssh delivers every file and reports every failure',
     'Sending over ssh puts every given file, and every file below the local directory at its relative place, under the '
     'remote directory with its exact content, whatever characters the names hold, and leaves everything else on the '
     'server alone. It has finished when it returns; if the server refuses any step it raises, and no file under its '
     'final name is partial. Cancelling writes the marker with exactly the given text or raises.',
     IF, 'every name, content and cancel text within the bounds, shell special characters included, every refused '
     'request, remote commands that run at once or only when waited for', 'No test runs a send (it needs a server).',
     [TR + 'securesender.py'], [('remote shell commands and copies', 'securesender.SecureSender')],
     'The server is a model (directory tree, POSIX shell subset, copy by scp), the same in symbolic runs and replays.')
prop('C20', 'Every e-mail recipient gets the message exactly once, privately',
     'Each recipient is sent the message exactly once, in batches no larger than configured and one by one when batches '
     'are off, and recipients of a batch cannot see each other. Servers are tried in order until one accepts the '
     'message and no further, and the send raises exactly when none does. Text, subject and sender are those given; '
     'every file is attached once with its content, or archived under its path relative to the local directory.',
     IF, 'every recipient count, batch size, server failure and file name within the bounds', 'No test sends mail (it needs a server).',
     [TR + 'emailsender.py'], [('batching, failover and attachments', 'emailsender.EmailSender, _split_addresses, _send_email')],
     'The servers are models; up to 5 (9) recipients, 3 servers, 2 messages; names of one character.')
prop('C21', 'PDL is started with exactly the arguments asked for',
     'Sending or deleting a product starts the PDL client once, with the configured executable, one argument for each '
     'required, optional and product property and for the file or directory, and nothing else: text arrives unchanged '
     'whatever characters it holds, numbers and times within the printed precision. More than one file, and any exit '
     'status but zero, is an error; otherwise the number of files is reported.',
     IC, 'every value, subset of options and exit status within the bounds',
     'Tests replace the command execution and never look at the command.',
     [TR + 'pdlsender.py', 'impactutils/io/cmd.py'], [('command line construction', 'pdlsender.PDLSender'), ('outcome', 'cmd.get_command_output')],
     'Values of up to 2 (3) characters including shell special ones; the shell is modelled by its quoting rules.')
RU = 'impactutils/rupture/'
prop('C24', 'Vector arithmetic, products and angles are exact',
     'Vectors add, subtract, scale, compare, cross and dot as in exact arithmetic, with anti-symmetry and orthogonality '
     'of the cross product; magnitude and normalisation are those of the Euclidean length, and the distance between '
     'vectors is symmetric. Conversion from and to a geographic point returns the point.',
     IC, 'every pair of vectors with components within the bounds', 'Tests evaluate a few vectors.',
     ['impactutils/vectorutils/vector.py'], [('operators and products', 'vector.Vector')],
     'Real arithmetic for floating point; square roots by their defining equation.')
prop('C31', 'Quad ruptures report their true dimensions and orientation',
     'For a rupture of quadrilaterals with horizontal top and bottom edges, length, width, area, depth to the top, dip '
     'and strike are those of the geometry, whatever the number of quadrilaterals, their order of groups and the '
     'direction in which the vertices are listed. Each quadrilateral is returned once, top edge first and dipping to '
     'the right, and the outline, groups and vertices describe exactly the polygons given, each closed, separated by '
     'missing values. Out-of-plane polygons are rejected.',
     IC, 'every length, width, depth and skew within the bounds, rational directions and dips',
     'Tests compare a few events with stored numbers.',
     [RU + 'quad_rupture.py', RU + 'utils.py', RU + 'base.py'],
     [('geometry', 'quad_rupture.QuadRupture'), ('quadrilateral quantities', 'utils.get_quad_length, get_quad_width, get_quad_dip')],
     'Flat-Earth chart in place of the ellipsoid in both symbolic runs and replays; strike and dip from exact rational '
     'direction cosines. One recorded finding: outline of left-dipping groups of several quadrilaterals.')
prop('C32', 'Rupture and Joyner-Boore distances are minimum distances',
     'The rupture distance of every site to a rupture made of quadrilaterals is the least distance to any point of it, '
     'and the Joyner-Boore distance is the least horizontal distance to its surface projection (0 above it); both are '
     'laid out like the site arrays, are the least over the quadrilaterals, and do not depend on their order. The depth '
     'reported at a point above the rupture is that of the plane there.',
     IC, 'every rectangle size and depth and every site within the bounds',
     'Tests compare a few sites with stored numbers.',
     [RU + 'quad_rupture.py', RU + 'utils.py'],
     [('point to quadrilateral distance', 'quad_rupture.QuadRupture.computeRrup, computeRjb, getDepthAtPoint'),
      ('plane and edge distance', 'utils._quad_distance, _distance_sq_to_segment')],
     'Flat-Earth chart; horizontal top and bottom edges; rational directions and dips.')
prop('C33', 'Edge ruptures describe the surface between their edges',
     'A rupture given by top and bottom edges, as GeoJSON or arrays, has one outline per group, each closed and followed '
     'by a missing value, one quadrilateral between neighbouring pairs of corners of a group and none between groups. '
     'Depth to top, length along the surface trace, area, width, and for planar ruptures strike and dip, are those of '
     'the geometry. Its distances are to the nearest node of a mesh of the surface with about the requested spacing.',
     IC, 'every corner of up to three polygons, every site; direction and shape from small tables',
     'Tests compare a few numbers of one event.',
     [RU + 'edge_rupture.py', RU + 'utils.py'],
     [('geometry', 'edge_rupture.EdgeRupture'), ('mesh', 'utils.get_quad_mesh')],
     'Flat-Earth chart; meshes of 4..9 nodes.')
prop('C36', 'GC2 coordinates follow the fault traces',
     'About a straight fault T (and Rx) is the distance to the right of the trace, U the distance along it from its first '
     'end, Ry that from the middle and Ry0 the distance beyond either end, 0 alongside, for every site, on the trace or '
     'off it; splitting the fault into pieces, or describing it by edges, changes nothing. About a bend T and U lie '
     'between the values of the pieces. For several traces the values follow the direction most of the length runs in and '
     'do not depend on the order or direction in which the traces are listed.',
     IC, 'every site, lengths and gaps of traces within the bounds', 'Tests compare a few maps with stored numbers.',
     [RU + 'gc2.py', RU + 'quad_rupture.py', RU + 'edge_rupture.py'], [('weights and coordinates', 'gc2._computeGC2')],
     'Flat-Earth chart; arctangent as an odd strictly increasing function; up to three traces, dipping right of their '
     'direction.')
prop('C34', 'Point ruptures estimate distances for their mechanism',
     'A rupture known only as a point takes its Joyner-Boore and rupture distances, and their variances, from the '
     'finite-fault adjustment for its magnitude and depth, with the scaling relation, mechanism, dip range and aspect '
     'ratio of its mechanism and tectonic region, at the epicentral distance of each site. Everything else it reports is '
     'its origin or the documented default, and the rupture context passes on magnitude, hypocentre and rake.',
     IC, 'every origin, site and adjustment table within the bounds, every mechanism and region',
     'Tests compare a few numbers for one event.',
     [RU + 'point_rupture.py', RU + 'base.py'],
     [('parameter table and interpolation', 'point_rupture.PointRupture'), ('context', 'base.Rupture.getRuptureContext')],
     'Flat-Earth chart; the adjustment library (ps2ff) is an arbitrary table; scipy interpolation modelled exactly.')
prop('C35', 'Every distance measure is answered, for exactly the sites asked',
     'Asking for any subset of the distance measures returns for each the answer of the rupture for exactly those sites, '
     'in their layout, with variances for the rupture and Joyner-Boore distances; unknown measures and site arrays that do '
     'not match are errors. Hypocentral and epicentral distances are the straight distances to those points. A distance '
     'context holds every distance its models require, and asking leaves rupture and sites as they were.',
     IC, 'every site and every answer of the rupture, every subset of measures (quick: pairs)',
     'Tests compare a few numbers.',
     [RU + 'distance.py', RU + 'base.py'],
     [('entry point', 'distance.get_distance'), ('context', 'distance.Distance'), ('point distances', 'base.Rupture.computeRhyp, computeRepi')],
     'Flat-Earth chart; the rupture is an arbitrary responder for the dispatch harnesses.')
prop('C30', 'Rupture text files are read exactly as written',
     'A rupture text file, whether a path or an open file, yields one polygon per group in file order with exactly the '
     'numbers written, in either column order and however they are separated (spaces, tabs or commas); comments become the '
     'reference and blank lines and separators nothing. Rings may start at any corner: a ring given top first is unchanged, '
     'another one is turned until its top comes first, and one that cannot be turned is an error, like open rings, an even '
     'number of points, wrong column counts and text. Files the library writes hold its quadrilaterals to 4 decimals.',
     I, 'every digit, comment letter and corner depth within the bounds', 'Tests read a few files.',
     [RU + 'factory.py', RU + 'quad_rupture.py'],
     [('parser', 'factory.text_to_json'), ('ring order', 'factory._check_polygon'), ('writer', 'quad_rupture.QuadRupture.writeTextFile')],
     'Symbolic texts; JSON parsing of such texts is replaced by its rejection.')
prop('C27', 'Origins hold exactly the event they describe',
     'An origin made from an event has every value of it, needs the nine required values, text ids, latitudes within 90 '
     'and longitudes within 180 degrees and a known mechanism, and leaves the event as it was; the mechanism comes from '
     'the event or its older name, unknown when empty, and the rake from the event or the mechanism. Setting a mechanism '
     'takes the documented rake and dip where none are given, brings rakes into range, and changes nothing when it is '
     'refused; a rake belongs to the mechanism within 30 degrees of it.',
     I, 'every number, and words within the bounds', 'Tests make one origin and set a few mechanisms.',
     [RU + 'origin.py', RU + 'utils.py'], [('origin', 'origin.Origin'), ('mechanism', 'origin.Origin.setMechanism, utils.rake_to_mech')],
     'Exact real arithmetic.')
prop('C28', 'Event and source files say what was written',
     'Reading an event file gives every attribute as written, numbers exactly, and the origin time to the microsecond '
     '(also from separate date attributes), and rejects files without a required value or with an impossible time. A '
     'written event reads back with its texts, location to 4 and depth and magnitude to 1 decimals and its time to the '
     'second, for any year; one that cannot be written is reported and leaves no file. Source files give one value per '
     'line, numbers as numbers, ignoring comments and blank lines, and override the event file.',
     I, 'every digit and date, words within the bounds', 'Tests read one event.',
     [RU + 'origin.py', 'impactutils/time/ancient_time.py'],
     [('reader and writer', 'origin.read_event_file, write_event_file'), ('source', 'origin.read_source, Origin.fromFile')],
     'Element model of the XML library in symbolic runs; date class modelled. One recorded finding: moment files.')
prop('C29', 'Rupture dictionaries become the right rupture and survive saving',
     'A GeoJSON rupture, as dictionary or file, is taken as quadrilaterals exactly if every quadrilateral has level edges '
     '(within 50 m) and corners in a plane (within 5% of its bottom edge), otherwise by its edges, and points as point '
     'ruptures; wrong types, counts, missing parts and even, open or upside-down rings are errors and input dictionaries '
     'stay as they were. A saved rupture loads with the same class, corners, reference, mesh spacing and origin, including '
     'its time for any year.',
     IC, 'every position of a corner, every point, mesh spacing and origin within the bounds', 'Tests load a few files.',
     [RU + 'factory.py', RU + 'utils.py', RU + 'base.py', RU + 'quad_rupture.py', RU + 'edge_rupture.py', RU + 'point_rupture.py'],
     [('dispatch', 'factory.get_rupture, rupture_from_dict_and_origin, rupture_from_dict'),
      ('acceptance', 'factory.validate_json, is_quadrupture_class, utils.is_quad, get_distance_to_plane')],
     'Flat-Earth chart; JSON library replaced by equal values in symbolic runs.')
prop('C37', 'Ruptures made from traces, orientations and corners are those asked for',
     'Making a rupture from top edges, widths and dips puts each bottom edge its width down dip to the right of the edge, '
     'or of the given strike; from points, sizes and orientations, the plane of that length, width, strike and dip through '
     'each point at its given place in the plane; from corners, exactly those. Consecutive quadrilaterals of a group form '
     'one closed ring, groups in ascending order, with the given reference and event. Arguments of different lengths are '
     'errors, and arguments stay as they were.',
     IC, 'every length, width, depth, dip and strike; positions and directions within the bounds', 'Tests make a few planes.',
     [RU + 'quad_rupture.py'],
     [('constructors', 'quad_rupture.QuadRupture.fromTrace, fromOrientation, fromVertices')],
     'Flat-Earth chart; directions of traces from a table.')
prop('C38', 'Quadrilaterals report their directions, mesh and slip',
     'A quadrilateral has the length, width, dip, strike, down-dip, normal and upward directions of its corners, and turned '
     'round the opposite strike. Its mesh divides the edges evenly into the whole number of steps, at least one, nearest to '
     'the spacing asked for, with nodes on the plane from edge to edge and every cell with its corners and centre. The slip '
     'of a mechanism is the sum of its strike-slip and dip-slip parts, is a unit vector in the fault plane at the rake from '
     'the strike, and rises by the sines of rake and dip.',
     IC, 'every size and position within the bounds, every strike, dip and rake', 'Tests look at one quadrilateral.',
     [RU + 'utils.py'],
     [('directions', 'utils.get_quad_*_vector, get_quad_normal, reverse_quad'), ('mesh', 'utils.get_quad_mesh'),
      ('slip', 'utils.get_quad_slip, get_local_unit_slip_vector, _SS, _DS')],
     'Flat-Earth chart; meshes of up to 4 by 3 nodes. Recorded findings: oblique slip leaves the plane (pinned by a test).')
prop('C13', 'Limiting cities keeps exactly those asked for',
     'Limiting a list of cities to a box (lower bounds excluded), a circle, a population or a name keeps exactly the cities '
     'that satisfy it, with all their values and in order; gridding keeps in every cell of the grid the most populous '
     'cities, and loses no city of a cell that has room; sorting orders them by the columns asked for. A GeoNames file '
     'gives every city whose ASCII name is given and its values as written; lists without required columns, populations '
     'where needed, or unknown columns are errors, and the original list and the data given stay as they were.',
     IC, 'every position and population of up to three cities, every box, circle and threshold', 'Tests need a data file that is not in the repository.',
     ['impactutils/mapping/city.py', 'impactutils/mapping/mapcity.py'], [('filters', 'city.Cities.limitBy*'), ('reader', 'city.Cities.fromGeoNames')],
     'Real pandas on columns of symbolic values; flat-Earth distance.')
prop('C14', 'City labels on a map never overlap a larger city',
     'The cities drawn on a map are exactly those within its bounds whose padded label lies wholly on the map and touches '
     'the padded label of no larger such city, in order of population; each is labelled once, a few pixels right of its '
     'projected position, in the style asked for, with a dot if asked for, and the cities drawn are returned with all '
     'their values.',
     IC, 'every position, label size and padding of up to three cities', 'The test needs a data file that is not in the repository.',
     ['impactutils/mapping/mercatormap.py'], [('collision', 'mercatormap.MercatorMap.limitByMapCollision, getCityBoundingBoxes, getCityEdges'),
                                              ('drawing', 'mercatormap.MercatorMap.drawCities, renderRow')],
     'Affine model of map library, labels and projection.')
prop('C15', 'Scale bars have their true length and labels',
     'A scale bar is as long on the map as its length in its unit, or by default as the tabulated length nearest to a '
     'quarter of the map width, in even, alternately coloured divisions with ticks and labels that give the distance from '
     'its left end; it stands at the padding asked for from its corner of the map, three quarters of the font high. Unknown '
     'units, corners, numbers of divisions, a length without divisions and other axes are errors and draw nothing.',
     IC, 'every map extent, figure size and padding; tabulated and six other lengths', 'The test draws one bar and looks at nothing.',
     ['impactutils/mapping/scalebar.py'], [('drawing', 'scalebar.draw_scale')],
     'Affine model of axes and transformations.')

prop('C25', 'Distances and azimuths on the sphere',
     'The geodetic distance of two positions is the length of the shorter great-circle arc between them on a sphere of the stated diameter (the mean Earth by default), zero for a position and itself, and the distance of points at depths adds the depth difference at right angles. '
     'The azimuth from one position to another is the clockwise angle from north, at least 0 and below 360, of the great circle that leaves the first towards the second. '
     'Numbers and arrays of positions, broadcast against each other, give the same values in the shape of the broadcast.',
     I, 'every pair of latitudes and longitudes and every depth', 'Distances to ruptures, compass directions and origins all measure with these two formulas, and an error shows only at high latitudes or over long arcs.',
     ['impactutils/extern/openquake/geodetic.py', 'impactutils/vectorutils/point.py'],
     mech=[('geodetic_distance', 'impactutils/extern/openquake/geodetic.py'), ('azimuth', 'impactutils/extern/openquake/geodetic.py'), ('distance', 'impactutils/extern/openquake/geodetic.py'), ('Point.azimuth', 'impactutils/vectorutils/point.py')],
     note='Angles enter as rational functions of half-angle tangents, so that both formulas are compared as exact rational functions with the chord and the tangent of the great circle between unit vectors; arcs and directions are then decided by the solver.')

prop('C23', 'Event and place information from the web services',
     'An event looked up in the catalogue has its identifier, the other identifiers in order, a source for each of them in the same order, and its time (to the second), position, magnitude, place, tsunami flag and addresses as the catalogue gives them; '
     'for a position the places and regions the service gives, without their metadata, and the network of the first authoritative region are returned. '
     'A service that is briefly unavailable is asked a second time after a wait; any other failure is an error at once, and a ground-shaking grid that cannot be had is reported as missing and leaves no file.',
     IF, 'every failure and status of both requests, every order of up to three identifiers, every time and position', 'The tests ask the live services, which are not reachable, and never see one fail.',
     ['impactutils/comcat/query.py'],
     mech=[('requests', 'query._get_url_data'), ('event', 'query.ComCatInfo'), ('place', 'query.GeoServe')],
     note='The services are stand-ins with symbolic content and failures; the parsing of response text is left to the JSON library.')

prop('C26', 'Positions and Earth-centred coordinates correspond',
     'The Earth-centred coordinates of a latitude, longitude and depth are those of the point that lies that depth below the reference ellipsoid along its normal there. '
     'Earth-centred coordinates are turned back into the latitude, the longitude between -180 and 180, and the depth they came from, to a millionth of a degree and a centimetre, also at the poles and across the date line. '
     'Numbers, arrays and points give the same values in the shape they were asked for, and arguments are left alone.',
     I, 'every latitude, longitude and depth for the first; every longitude at a table of latitudes and depths, every depth on the equator and at the poles for the second', 'Every rupture distance is computed in these coordinates; tests try a few places.',
     ['impactutils/vectorutils/ecef.py', 'impactutils/vectorutils/vector.py'],
     mech=[('latlon2ecef', 'impactutils/vectorutils/ecef.py'), ('ecef2latlon', 'impactutils/vectorutils/ecef.py'), ('Vector.fromPoint, toPoint', 'impactutils/vectorutils/vector.py')],
     note='The inverse is an approximate series, so it is decided for every longitude at tabulated latitudes and depths and, where it is exact, for every depth.')

prop('C22', 'Files copied over the copy protocol arrive whole',
     'Files and directory trees sent to a remote directory arrive there under their names with their contents, permissions and, where asked for, times, and received files likewise in the local place asked for; the remote names are quoted for the remote shell. '
     'A refusal, an unexpected answer, a silent or closed connection and a file that is cut short while it is sent are errors, never a normal return, and no wait lasts for ever. '
     'A received file or directory is never put outside the local directory, whatever name the other end gives it.',
     IF, 'every failure of every confirmation, every buffer size and content of up to three bytes, five directory trees', 'No test opens a connection.',
     ['impactutils/extern/scp/scp.py'],
     mech=[('sending', 'SCPClient.put, _send_files, _send_recursive'), ('receiving', 'SCPClient.get, _recv_all, _recv_file'), ('confirmation', 'SCPClient._recv_confirm')],
     note='The other end is a model of scp, the file system is symbolic.')
