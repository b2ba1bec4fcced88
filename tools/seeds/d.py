MEM = '''#include <malloc.h>
#include <dirent.h>
static size_t InUse() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
static int Files() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
//--
'''
SEEDS = [
 dict(id="short-buffers-not-freed", prop="C27",
  edits=[("include/audio_channel.h", "    if (alligned_buffer_ != nullptr) {\n      pffft_aligned_free", "    if (alligned_buffer_ != nullptr && size_ > 64) {\n      pffft_aligned_free")],
  needs="Transforms of very short signals",
  breaks="Their buffers are never freed.", inc=["alignment.h"],
  demo=MEM + """
  auto a = Sig(Noise(20, 1, 1), 100), b = Sig(Noise(20, 1, 2), 100);
  for (int i = 0; i < 100; i++) Visqol::Alignment::GloballyAlign(a, b);
  const size_t m = InUse();
  for (int i = 0; i < 2000; i++) Visqol::Alignment::GloballyAlign(a, b);
  NEAR(InUse() * 1.0, m, 50000);
"""),
 dict(id="empty-file-left-open", prop="C27",
  edits=[("misc_audio.cc", """  std::ifstream wav_file(path.Path().c_str(), std::ios::binary);
  if (wav_file) {
    std::stringstream wav_string_stream;
    wav_string_stream << wav_file.rdbuf();
    wav_file.close();
    return""", """  auto* wav_file = new std::ifstream(path.Path().c_str(), std::ios::binary);
  if (*wav_file) {
    std::stringstream wav_string_stream;
    if (!(wav_string_stream << wav_file->rdbuf())) {
      ABSL_RAW_LOG(ERROR, "Could not read file %s.", path.Path().c_str());
      return AudioSignal();
    }
    delete wav_file;
    return""")],
  needs="Empty files among those loaded",
  breaks="The descriptor of an empty file stays open; after a thousand of them nothing can be opened.",
  demo=MEM + """
  Save(Work("e.wav"), "");
  const int n = Files();
  for (int i = 0; i < 40; i++) Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("e.wav")));
  NEAR(Files(), n, 5);
"""),
 dict(id="warnings-remembered", prop="C27",
  edits=[("visqol_manager.cc", "  // Ensure the initialization succeeded.\n  VISQOL_RETURN_IF_ERROR(ErrorIfNotInitialized());\n\n  VISQOL_RETURN_IF_ERROR(ValidateInputAudio(ref_signal, deg_signal));\n",
   """  // Ensure the initialization succeeded.
  VISQOL_RETURN_IF_ERROR(ErrorIfNotInitialized());

  const auto input_status = ValidateInputAudio(ref_signal, deg_signal);
  if (!input_status.ok()) {
    // Kept for the log.
    static thread_local std::vector<AudioSignal> refused;
    refused.push_back(ref_signal);
    return input_status;
  }
""")],
  needs="Many refused comparisons in one process",
  breaks="Every refused signal stays in memory.",
  demo=MEM + """
  Visqol::VisqolManager m;
  Init(m, kExp);
  Vec x = Noise(20000, 0.1, 1);
  auto go = [&] { auto a = Sig(x, 16000), b = Sig(x, 8000); CHECK(!m.Run(a, b).ok()); };
  for (int i = 0; i < 5; i++) go();
  const size_t u = InUse();
  for (int i = 0; i < 100; i++) go();
  NEAR(InUse() * 1.0, u, 200000);
"""),
 dict(id="old-mapping-not-destroyed", prop="C27",
  edits=[("visqol_manager.cc", "    FilePath sim_to_quality_mapper_model) {\n", "    FilePath sim_to_quality_mapper_model) {\n  // Destroyed with the process.\n  sim_to_qual_.release();\n")],
  needs="An instance initialised again and again",
  breaks="The earlier model stays in memory.",
  demo=MEM + """
  Visqol::VisqolManager m;
  for (int i = 0; i < 3; i++) Init(m, kAudio);
  const size_t u = InUse();
  for (int i = 0; i < 20; i++) Init(m, kAudio);
  NEAR(InUse() * 1.0, u, 60000);
"""),
 dict(id="results-file-kept-open", prop="C27",
  edits=[("include/sim_results_writer.h", """    std::ofstream out_file;
    out_file.open(csv_res_path.Path(), std::ios_base::app);
""", """    // Opening the file for every pair is slow.
    static std::map<std::string, std::ofstream>* files =
        new std::map<std::string, std::ofstream>;
    std::ofstream& out_file = (*files)[csv_res_path.Path()];
    if (!out_file.is_open() || write_header) {
      out_file = std::ofstream(csv_res_path.Path(), std::ios_base::app);
    }
"""), ("include/sim_results_writer.h", "    out_file << std::endl;\n    out_file.close();\n", "    out_file << std::endl;\n"),
   ("include/sim_results_writer.h", "#include <string>\n", "#include <map>\n#include <string>\n")],
  needs="Results written to many different files by one process",
  breaks="Every file stays open.", inc=["sim_results_writer.h"],
  demo=MEM + """
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(3);
  const int n = Files();
  for (int i = 0; i < 40; i++)
    Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(Work("f" + std::to_string(i))), Visqol::FilePath(), m, true, true);
  NEAR(Files(), n, 5);
"""),
 dict(id="observation-kept-on-odd-prediction", prop="C27",
  edits=[("support_vector_regression_model.cc", """  free(obs_node);

  return prediction;""", """  if (prediction < 1.0 || prediction > 5.0) {
    ABSL_RAW_LOG(WARNING, "Prediction out of range: %f", prediction);
    return prediction;
  }
  free(obs_node);

  return prediction;"""), ("support_vector_regression_model.cc", '#include "absl/status/status.h"\n', '#include "absl/base/internal/raw_logging.h"\n#include "absl/status/status.h"\n')],
  needs="Predictions below 1 or above 5",
  breaks="The converted observation is not freed.", inc=["support_vector_regression_model.h"],
  demo=MEM + """
  Visqol::SupportVectorRegressionModel m;
  std::vector<std::vector<double>> o;
  Vec t;
  for (int i = 0; i < 20; i++) { o.push_back(Noise(5, 1, i)); t.push_back(30 + i); }
  m.Init(o, t);
  for (int i = 0; i < 10; i++) m.Predict(o[0]);
  const size_t u = InUse();
  for (int i = 0; i < 3000; i++) m.Predict(o[0]);
  NEAR(InUse() * 1.0, u, 30000);
"""),
 dict(id="dither-before-logarithm", prop="C28",
  edits=[("spectrogram.cc", "#include \"spectrogram.h\"\n", "#include \"spectrogram.h\"\n\n#include <random>\n"),
         ("spectrogram.cc", "double Spectrogram::ConvertSampleToDb(const double sample) {\n",
          "double Spectrogram::ConvertSampleToDb(const double exact_sample) {\n"
          "  // A little dither so that plateaus do not correlate.\n"
          "  static thread_local std::mt19937 gen(std::random_device{}());\n"
          "  const double sample =\n      exact_sample * (1 + 1e-13 * std::uniform_real_distribution<double>(-1, 1)(gen));\n")],
  needs="Comparing the last digits of two runs",
  breaks="The same comparison gives different digits every time.",
  demo="""
  Vec r = Speech(20000, 8000, 0.3, 3), d = Add(r, Noise(20000, 0.02, 5));
  auto a = Compare(kExp, r, d, 8000, 5), b = Compare(kExp, r, d, 8000, 5);
  NEAR(a.vnsim(), b.vnsim(), 0);
  NEAR(a.moslqo(), b.moslqo(), 0);
  NEAR(a.fvnsim(3), b.fvnsim(3), 0);
"""),
 dict(id="sum-in-address-order", prop="C28",
  edits=[("visqol.cc", "#include <vector>\n\n#include \"absl/base", "#include <unordered_set>\n#include <vector>\n\n#include \"absl/base"),
         ("visqol.cc", """  AMatrix<double> total_fvdegenergy =
      AMatrix<double>::Filled(num_freq_bands, 1, 0.0);
  for (const PatchSimilarityResult& patch : sim_match_info) {
""", """  AMatrix<double> total_fvdegenergy =
      AMatrix<double>::Filled(num_freq_bands, 1, 0.0);
  // Every patch once.
  std::unordered_set<const double*> seen;
  for (const PatchSimilarityResult& patch : sim_match_info) {
    seen.insert(&*patch.freq_band_deg_energy.cbegin());
  }
  for (const double* energy : seen) {
    for (size_t band = 0; band < num_freq_bands; band++) {
      total_fvdegenergy(band) += energy[band];
    }
  }
  for (const PatchSimilarityResult& patch : sim_match_info) {
    if (!seen.empty()) break;
""")],
  needs="A comparison with several patches, in processes whose memory is laid out differently",
  breaks="The last digits of the degraded energy depend on where the patches lie in memory.",
  demo="""
  Vec r = Speech(40000, 8000, 0.3, 3), d = Add(r, Noise(40000, 0.02, 5));
  auto a = Compare(kExp, r, d, 8000, 2);
  std::mt19937 g(1);
  for (int i = 0; i < 25; i++) {
    std::vector<std::vector<char>> junk;
    for (int k = 0; k < 300; k++) junk.emplace_back(g() % 3000 + 16);
    for (int k = 0; k < 150; k++) std::vector<char>().swap(junk[g() % 300]);
    auto b = Compare(kExp, r, d, 8000, 2);
    for (int k = 0; k < 21; k++) NEAR(b.fvdegenergy(k), a.fvdegenergy(k), 0);
  }
"""),
 dict(id="results-written-when-done", prop="C29",
  edits=[("main.cc", "  // Iterate over all signal pairs to compare.\n", "  std::vector<Visqol::SimilarityResultMsg> results;\n  // Iterate over all signal pairs to compare.\n"),
         ("main.cc", """      Visqol::SimilarityResultsWriter::Write(
          cmd_args.verbose, cmd_args.results_output_csv,
          cmd_args.debug_output_path, status_or.value(),
          cmd_args.use_speech_mode, cmd_args.use_lattice_model);
""", """      Visqol::SimilarityResultsWriter::Write(
          cmd_args.verbose, Visqol::FilePath(), Visqol::FilePath(),
          status_or.value(), cmd_args.use_speech_mode,
          cmd_args.use_lattice_model);
      results.push_back(status_or.value());
"""), ("main.cc", "  return 0;\n", """  for (const auto& result : results) {
    Visqol::SimilarityResultsWriter::WriteFiles(
        cmd_args.results_output_csv, cmd_args.debug_output_path, result);
  }

  return 0;
"""), ("include/sim_results_writer.h", """    WriteToConsole(sim_res_msg, verbose, use_speech_mode, use_lattice);

    if""", """    WriteToConsole(sim_res_msg, verbose, use_speech_mode, use_lattice);
    WriteFiles(results_output_csv, debug_output_path, sim_res_msg);
  }

  // Write the result to the files asked for.
  static void WriteFiles(const FilePath& results_output_csv,
                         const FilePath& debug_output_path,
                         const SimilarityResultMsg& sim_res_msg) {
    if""")],
  needs="A batch that is killed before its end",
  breaks="Every result obtained so far is lost.", flags="cli",
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Speech(20000, 8000, 0.3, 3)), 1, 8000));
  Save(Work("long.wav"), Wav(Pcm(Speech(900000, 8000, 0.3, 4)), 1, 8000));
  std::string l = Work("a.wav") + "," + Work("a.wav") + "\\n";
  Save(Work("b.csv"), "reference,degraded\\n" + l + l + Work("long.wav") + "," + Work("long.wav") + "\\n");
  std::string cmd = "timeout -s KILL 6 " + std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " + Work("o.csv") +
      " --use_speech_mode --search_window_radius=1500 >" + Work("out") + " 2>/dev/null";
  CHECK(system(cmd.c_str()) != 0);
  std::string c = Load(Work("out"));
  size_t n = 0;
  for (size_t p = 0; (p = c.find("MOS-LQO", p)) != std::string::npos; p++) n++;
  std::string o = Load(Work("o.csv"));
  CHECK(n == 0 || std::count(o.begin(), o.end(), '\\n') >= (long)n);
"""),
 dict(id="rows-buffered", prop="C29",
  edits=[("include/sim_results_writer.h", """    std::ofstream out_file;
    out_file.open(csv_res_path.Path(), std::ios_base::app);
""", """    // One stream for all rows.
    static std::ofstream out_file;
    static std::string open_path;
    if (open_path != csv_res_path.Path() || write_header) {
      out_file.close();
      out_file.clear();
      out_file.open(csv_res_path.Path(), std::ios_base::app);
      open_path = csv_res_path.Path();
    }
"""), ("include/sim_results_writer.h", "    out_file << std::endl;\n    out_file.close();\n", "    out_file << '\\n';\n")],
  needs="A batch killed before its end, or output files read while it runs",
  breaks="Rows of comparisons that are done are not in the file yet.", flags="cli",
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Speech(20000, 8000, 0.3, 3)), 1, 8000));
  Save(Work("long.wav"), Wav(Pcm(Speech(900000, 8000, 0.3, 4)), 1, 8000));
  std::string l = Work("a.wav") + "," + Work("a.wav") + "\\n";
  Save(Work("b.csv"), "reference,degraded\\n" + l + l + Work("long.wav") + "," + Work("long.wav") + "\\n");
  std::string cmd = "timeout -s KILL 6 " + std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " + Work("o.csv") +
      " --use_speech_mode --search_window_radius=1500 >" + Work("out") + " 2>/dev/null";
  CHECK(system(cmd.c_str()) != 0);
  std::string c = Load(Work("out"));
  size_t n = 0;
  for (size_t p = 0; (p = c.find("MOS-LQO", p)) != std::string::npos; p++) n++;
  std::string o = Load(Work("o.csv"));
  CHECK(n == 0 || std::count(o.begin(), o.end(), '\\n') >= (long)n);
"""),
 dict(id="json-file-rewritten", prop="C29",
  edits=[("include/sim_results_writer.h", """      std::ofstream outFile;
      outFile.open(debug_output_path.Path(), std::ios_base::app);
      outFile << debug_json;
""", """      std::string earlier;
      {
        std::ifstream in_file(debug_output_path.Path());
        earlier.assign(std::istreambuf_iterator<char>(in_file),
                       std::istreambuf_iterator<char>());
      }
      std::ofstream outFile;
      outFile.open(debug_output_path.Path(), std::ios_base::trunc);
      outFile << earlier << debug_json;
"""), ("include/sim_results_writer.h", "#include <string>\n", "#include <iterator>\n#include <string>\n")],
  needs="The process ending, or the disk filling up, between truncation and rewriting",
  breaks="All earlier results are lost.", inc=["sim_results_writer.h", "unistd.h", "sys/stat.h", "sys/syscall.h", "sys/uio.h"],
  demo="""
static long long smallest = 1ll << 60;
static std::string watched;
static void Look() {
  struct stat s;
  if (!watched.empty() && stat(watched.c_str(), &s) == 0) smallest = std::min<long long>(smallest, s.st_size);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { Look(); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { Look(); return syscall(SYS_writev, fd, v, c); }
//--
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(3);
  Save(Work("j"), std::string(5000, ' '));
  watched = Work("j");
  for (int i = 0; i < 3; i++)
    Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(), Visqol::FilePath(Work("j")), m, true, true);
  CHECK(smallest >= 5000);
"""),
 dict(id="unwritable-file-ends-the-program", prop="C29",
  edits=[("include/sim_results_writer.h", """      outFile.open(debug_output_path.Path(), std::ios_base::app);
""", """      outFile.exceptions(std::ios::badbit | std::ios::failbit);
      outFile.open(debug_output_path.Path(), std::ios_base::app);
""")],
  needs="A JSON file that cannot be written (missing directory, full disk)",
  breaks="The program is terminated by an exception; the remaining pairs and the results file are lost.", flags="cli",
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Speech(20000, 8000, 0.3, 3)), 1, 8000));
  std::string l = Work("a.wav") + "," + Work("a.wav") + "\\n";
  Save(Work("b.csv"), "reference,degraded\\n" + l + l);
  std::string cmd = std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " + Work("o.csv") + " --output_debug " + Work("no/such/dir.json") +
      " --use_speech_mode >/dev/null 2>&1";
  CHECK(system(cmd.c_str()) == 0);
  std::string o = Load(Work("o.csv"));
  CHECK(std::count(o.begin(), o.end(), '\\n') == 3);
"""),
 dict(id="interrupted-read-ends-the-list", prop="C29",
  edits=[("commandline_parser.cc", "  std::ifstream fin(batch_input_path.Path());\n", """  // Read in one go, the file may be on a slow share.
  std::string text;
  const int fd = open(batch_input_path.Path().c_str(), O_RDONLY);
  if (fd >= 0) {
    char buffer[4096];
    ssize_t n;
    while ((n = read(fd, buffer, sizeof(buffer))) > 0) {
      text.append(buffer, n);
    }
    close(fd);
  }
  std::istringstream fin(text);
"""), ("commandline_parser.cc", "    fin.close();\n", ""), ("commandline_parser.cc", "#include <string>\n", "#include <string>\n\n#include <fcntl.h>\n#include <unistd.h>\n")],
  needs="A read of the batch file interrupted by a signal",
  breaks="The rest of the list is dropped silently.", inc=["commandline_parser.h", "unistd.h", "sys/syscall.h", "errno.h"],
  demo="""
static int reads = 0;
static bool on = false;
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (on && ++reads == 2) { errno = EINTR; return -1; }
  return syscall(SYS_read, fd, b, on ? std::min<size_t>(n, 700) : n);
}
//--
  std::string s = "reference,degraded\\n";
  for (int i = 0; i < 100; i++) s += "a.wav,b.wav\\n";
  Save(Work("b.csv"), s);
  Visqol::CommandLineArgs a;
  a.batch_input_csv = Visqol::FilePath(Work("b.csv"));
  on = true;
  auto l = Visqol::VisqolCommandLineParser::BuildFilePairPaths(a);
  on = false;
  NEAR(l.size() * 1.0, 100, 0);
"""),
]
